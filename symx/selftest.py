"""The numpy and scipy counterparts against the real libraries: every
expression below is evaluated with numbers by numpy and scipy, and with
symbolic variables by the counterparts, at the same values."""
import copy
import functools
import itertools
import math
import operator
import random
from fractions import Fraction

import numpy as real_np
import scipy.linalg
import z3

from . import scalar as sc
from . import npshim
from . import scishim
from .scalar import S, SymBool

EXPR = """
a+b; a-b; a*b; a/b; a@b; a**2; -a; a+1; 1-a; 2*a; a/2; 1/a; a+c; c*a; c@c; c.conj().T; a@x; x@a; x@y
a.T; c.T; a.real; c.real; c.imag; a.sum(); a.sum(axis=0); a.sum(axis=1,keepdims=True); c.sum(0); a.mean(); a.mean(axis=1)
a.std(); a.var(axis=0); a.prod(); a.cumsum(); a.cumsum(axis=1); x.cumprod(); a.max(); a.min(axis=0); a.argmax(); a.argmin(axis=1)
a.copy(); a.flatten(); a.ravel(); a.reshape(-1); a.reshape(9,1); a.reshape((1,9)); a.T.flatten(); a.flatten('F'); a.reshape((9,),order='F'); a.ravel(order='F')
a.transpose(); t.transpose(2,0,1); t.transpose((1,0,2)); t.swapaxes(0,2); a.diagonal(); a.trace(); c.trace(); a.repeat(2); a.repeat(2,axis=1); a.take([0,2],axis=1)
a.squeeze(); x[None,:]; x[:,None]; a[1]; a[:,1]; a[::-1]; a[-1]; a[0:2,1:]; a[[0,2]]; a[[0,2]][:,[0,2]]; a[np.ix_([0,2],[1,2])]; a[...,0]; a[...,None]; a[a>0]; x[x>0]; x[[True,False,True]]
a.clip(-.5,.5); a.round(1); a.tolist(); a.shape; a.ndim; a.size; a.dtype==float; c.dtype==complex; a.astype(complex); a.dot(b); a.nonzero(); (a>0).all(); (a>0).any(); (a>0).sum()
np.sum(a); np.sum(a,axis=0); np.sum([x,y],axis=0); np.sum([1,2]); np.sum(x*y); np.prod(x); np.prod([2,3]); np.mean(a,axis=0); np.std(x,ddof=1); np.var(x); np.average(a); np.average(x,weights=y*y); np.median(x)
np.max(a); np.min(a); np.amax(a,axis=1); np.maximum(a,b); np.minimum(a,0); np.maximum.reduce(x); np.fmax(x,y); np.argmax(x); np.argmin(np.abs(x)); np.ptp(x)
np.add(a,b); np.subtract(a,b); np.multiply(a,b); np.divide(a,b); np.true_divide(a,b); np.negative(a); np.power(a,2); np.square(a); np.reciprocal(a); np.matmul(a,b); np.dot(a,b); np.dot(x,y); np.inner(x,y); np.outer(x,y); np.vdot(x,y); np.vdot(z,z); np.kron(a,b); np.kron(c,np.eye(2)); np.tensordot(a,b,axes=1); np.tensordot(t,a,axes=([2],[0])); np.cross(x,y)
np.einsum('ij,jk->ik',a,b); np.einsum('ij,ij',a,b); np.einsum('ii',a); np.einsum('ii->i',a); np.einsum('ijk,kl->ijl',t,a); np.einsum('i,j->ij',x,y); np.einsum('ij->ji',a); np.einsum('ij,jk,kl->il',a,b,a); np.einsum('ijk->j',t); np.einsum('i,ij->ij',x,a); np.einsum('...ij,jk->...ik',t,a); np.einsum('tij,ji->t',t,a); np.einsum(a,[0,1],b,[1,2],[0,2]); np.einsum('ij,jk->ik',a,b,optimize=True)
np.conj(c); np.conjugate(c); np.real(c); np.imag(c); np.abs(x); np.absolute(c); np.abs(c)**2; np.sqrt(x*x+1); np.exp(x); np.cos(x); np.sin(x); np.log(x*x+1); np.tanh(x); np.arctan2(x,y); np.sign(x); np.floor(x*3); np.ceil(x*3); np.round(x,2); np.rint(x*3); np.isnan(x); np.isfinite(x); np.isinf(x); np.angle(z); np.hypot(x,y); np.exp(1j*x); np.sinc(0.); np.deg2rad(x); np.arccos(x/2)
np.array([1.,2.]); np.array([x,y]); np.array([[p,q],[q,p]]); np.array(a); np.array(a,copy=True); np.asarray([p,1,2.]); np.asarray(a); np.array([p,q],dtype=complex); np.asanyarray(a); np.ascontiguousarray(a.T); np.zeros(3); np.zeros((2,2)); np.ones((2,3)); np.eye(3); np.identity(2); np.zeros_like(a); np.ones_like(c); np.empty_like(a)*0; np.full((2,2),p); np.full_like(a,p); np.arange(4); np.arange(1,3); np.linspace(0,1,3); np.linspace(p,q,4); np.linspace(0,p,3,endpoint=False); np.diag(x); np.diag(a); np.diagonal(a); np.diagflat(x); np.tri(3); np.triu(a); np.tril(a); np.fromiter((v for v in [p,q]),dtype=float); np.arange(0,1,.25); np.geomspace(1.,8.,4); np.logspace(0,2,3)
np.concatenate([x,y]); np.concatenate((a,b),axis=1); np.stack([a,b]); np.stack([x,y],axis=1); np.stack([x,y],axis=-1); np.vstack([x,y]); np.hstack([x,y]); np.column_stack([x,y]); np.dstack([a,b]); np.append(x,p); np.append(a,b,axis=0); np.block([[a,b],[b,a]]); np.r_[x,y]; np.c_[x,y]; np.insert(x,1,p); np.delete(x,0); np.tile(x,2); np.tile(x,(2,1)); np.repeat(x,2); np.repeat(a,2,axis=0); np.repeat(x,[1,2,3]); np.pad(x,1); np.pad(x,(1,2)); np.split(a,3); np.array_split(x,2); np.hsplit(a,3); np.vsplit(a,3)
np.transpose(a); np.transpose(t,(1,2,0)); np.transpose(t,axes=[2,1,0]); np.swapaxes(t,0,1); np.moveaxis(t,0,-1); np.moveaxis(t,[0,1],[1,2]); np.rollaxis(t,2); np.reshape(a,(9,)); np.reshape(a,(9,),order='F'); np.reshape(a,9,'F'); np.ravel(a); np.ravel(a,'F'); np.expand_dims(x,0); np.expand_dims(a,axis=1); np.squeeze(a[:1]); np.atleast_1d(p); np.atleast_2d(x); np.atleast_3d(x); np.broadcast_to(x,(2,3)); np.flip(x); np.flip(a,axis=0); np.flip(a,1); np.flipud(a); np.fliplr(a); np.roll(x,1); np.roll(a,1,axis=1); np.rot90(a); np.ndim(a); np.shape(a); np.size(a); len(a)
np.cumsum(x); np.cumsum(a,axis=0); np.cumprod(x); np.diff(x); np.diff(a,axis=0); np.diff(a,axis=1); np.add.reduce(x); np.add.reduce(a,axis=0); np.add.accumulate(x); np.multiply.accumulate(x); np.multiply.reduce(x); np.multiply.outer(x,y); np.add.outer(x,y); np.subtract.outer(x,y); np.gradient(x); np.convolve(x,y); np.correlate(x,y); np.trapezoid(x) if hasattr(np,'trapezoid') else np.trapz(x); np.interp(.5,[0,1.],[p,q]); np.polyval([1,2,p],q); np.vander(x)
np.where(x>0,x,y); np.where(a>0); np.where(a>0,a,0); np.select([x>0,x<=0],[x,y]); np.clip(x,-.3,.3); np.nonzero(x); np.argwhere(a>0); np.flatnonzero(x>0); np.count_nonzero(a>0); np.any(x>0); np.all(x>-9); np.all(a>-9,axis=0); np.logical_and(x>0,y>0); np.logical_or(x>0,y>0); np.logical_not(x>0); np.allclose(a,a); np.isclose(x,x); np.array_equal(a,a); np.array_equal(a,b); np.equal(x,y); np.greater(x,0); np.less_equal(x,y); np.sort(x); np.argsort(x); np.sort(a,axis=0); np.sort(x)[::-1]; np.searchsorted([0.,.5,1.],.7); np.isin([1,2],[2,3]); np.unique([3,1,1]); np.take(x,[0,2]); np.take(a,[0,2],axis=1); np.compress([True,False,True],x); np.extract(x>0,x); np.nan_to_num(x); np.nanmean(x); np.nansum(x); np.nanmax(x); np.setdiff1d([1,2,3],[2]); np.intersect1d([1,2],[2,3]); np.union1d([1],[2]); np.delete(np.arange(4),[1,2]); np.in1d([1],[1]) if hasattr(np,'in1d') else True
np.trace(a); np.trace(c); np.trace(t,axis1=1,axis2=2); np.linalg.norm(x)**2; np.linalg.norm(a)**2; np.linalg.norm(c,'fro')**2; np.linalg.norm(a,axis=0)**2; np.linalg.norm(x,1); np.linalg.norm(x,ord=np.inf); np.linalg.det(a); np.linalg.inv(a); np.linalg.solve(a,x); np.linalg.matrix_power(a,3); np.linalg.matrix_power(a,0); np.linalg.multi_dot([a,b,a])
np.fft.fft(x); np.fft.ifft(x); np.fft.rfft(x); np.fft.irfft(z,4); np.fft.rfftfreq(4,.5); np.fft.fftfreq(4,.5); np.fft.fftshift(x)
np.vectorize(lambda v: v*v)(a); np.vectorize(lambda v: v*v,otypes=[float])(x); np.apply_along_axis(lambda v: v*2,0,a); np.fromfunction(lambda i,j: i+j,(2,2)); np.frompyfunc(lambda u,v:u*v,2,1)(x,y); np.piecewise(x,[x<0,x>=0],[lambda v:-v,lambda v:v])
np.meshgrid(x,y); np.indices((2,2)); np.unravel_index(5,(2,3)); np.ravel_multi_index((1,2),(2,3)); list(np.ndindex(2,2)); [v for _,v in np.ndenumerate(x)]; np.broadcast_arrays(x,a)[0]; np.triu_indices(3); np.diag_indices(3); a[np.triu_indices(3)]; np.newaxis is None; np.iscomplexobj(c); np.isrealobj(a); np.isscalar(1.); np.issubdtype(a.dtype,np.floating); np.result_type(a,c)==complex; np.bincount([0,1,1]); np.digitize(.5,[0,1]); np.finfo(float).eps; np.inf; np.nan!=np.nan; np.pi; np.e
sum(x); sum([p,q]); max(p,q); min(x); abs(p); abs(z[0])**2; sorted(x); math.sqrt(p*p+1); math.sqrt(p*p+1)**2; math.cos(p); math.exp(p); math.pi*p; math.isclose(p,p); math.prod([p,q]); math.fsum([p,q]); round(p,2); int(p*0+2); float(p); complex(p,q); p**3; p**.5 if p>0 else (-p)**.5; p//1; p%1; divmod(p,1); bool(p); isinstance(p,float); isinstance(p,(int,float,complex)); isinstance(z[0],complex); type(p) in (float,np.float64); p.real; p.conjugate(); z[0].imag; p==p; p!=q; p<q; not p; p is None; str(type(p)) != ''; math.hypot(p,q); math.floor(p*3); math.isnan(p); math.pow(p,2); math.copysign(1,p); pow(p,2); math.e
functools.reduce(operator.matmul,[a,b,a]); functools.reduce(lambda u,v: u+v,[a,b]); functools.reduce(np.dot,[a,b,a]); list(itertools.accumulate([p,q,p])); list(itertools.accumulate([a,b,a],operator.matmul)); list(itertools.chain(x,y)); [u*v for u,v in zip(x,y)]; list(map(operator.mul,x,y)); dict(enumerate(x)); operator.add(a,b); operator.itemgetter(0)(x); sum(u*v for u,v in itertools.product(x,y)); list(reversed(x)); any(v>0 for v in x); all(v>-9 for v in x); math.comb(4,2); sum((a,b)); sum([a,b],np.zeros((3,3)))
sla.expm(a*0); sla.block_diag(a,b); sla.norm(a)**2; sla.det(a); sla.inv(a); sla.toeplitz(x); sla.circulant(x); sla.kron(a,b) if hasattr(sla,'kron') else 0
iadd(a,b); isub(a,b); imul(a,b); setit(a,(0,1),p); setit(a,(slice(None),1),x); setit(a,0,x); setit(a,a>0,0); setit(c,(0,0),p); setrow(a); outarg(a,b); fillin(a); iadd(c,a); imul(c,2); idiv(a,2); putmask(a); filldiag(a); copyto(a,b)
np.tile(a,(1,2)); np.stack((a,b),axis=2); np.concatenate([a,b],0); np.concatenate([x,y],dtype=complex); np.einsum('ij,j',a,x); np.einsum('ki,kj->ij',c.conj(),c); np.einsum('...i,i',a,x); np.einsum('i->',x); np.einsum('abc,bd->acd',t,a)
np.sum(a,axis=(0,1)); np.sum(t,axis=(1,2)); np.sum(t,axis=-1); a.sum(-1); np.sum(a,where=a>0); np.sum(v for v in x) if False else 0; np.sum([p,q]); np.sum((x,y)); np.mean([p,q]); np.mean([x,y],axis=0); np.max([p,q]); np.abs([p,q]); np.sqrt([p*p,q*q]); np.cumsum([p,q]); np.dot([p,q],[q,p]); np.outer([p,q],x); np.diff([p,q]); np.prod([p,q]); np.argmin([p,q]); np.conj([p,q]); np.real([p,q]); np.transpose([[p,q]]); np.linalg.norm([p,q])**2; np.any([p>0]); np.all([p>0,q>0]); np.where([True,False],p,q); np.round([1.26],1); np.exp([p]); np.isclose([p],[p]); np.maximum(p,q); np.minimum(p,0); np.clip(p,0,1); np.sign(p); np.square(p); np.power(p,3); np.abs(p); np.sqrt(p*p+2); np.isclose(p,q); np.allclose([p],[q]); np.exp(p); np.cos(p); np.where(p>0,1,2); np.float64(p); np.complex128(p); np.array(p); np.array(p).item(); np.array([p])[0]; np.asarray(p).ndim
a==b; a!=b; a<b; a>=0; ~(a>0); (a>0)&(b>0); (a>0)|(b>0); x%1 if False else 0; x**3; x**-1; x**0; x**.5 if False else 0; +a; abs(a); abs(c)**2; round(1.234,2); a//1 if False else 0; 2**x if False else 0; a@c; c@x; c+1j; c-a; 1j*a; a*1j; c/2j; c/c; (1+2j)*p; p*1j; p/q; p-1; 1-p; 2/p; -p; +p; p*x; x*p; p+x; x+p; x-p; p-x; p/x; x/p; a*x; x*a; a*x[:,None]; a+x; t*x; t@a; a@t; t+a; x@y.T; c.T.conj(); c.conj().T@c; (c+c.conj().T)/2; c.trace().real; np.trace(c@c).real; np.trace(c).imag; c[0,0]; c[0,0].real; c[0].conj(); abs(c[0,0])**2; c.real.sum(); c.imag.T; np.real(np.trace(c)); np.abs(np.trace(c))**2; x.shape+(1,); t.shape[1:]; list(x.shape); x.tolist()[0]; list(x); tuple(x); [*x]; x.max()-x.min(); len(t); t[0]; t[0][1]; t[0,1]; t[:,1]; t[:,:,1]; t[::-1]; t[-1,-1]; t[0][:,1]; t[[1,0]]; t[:, [0,2]]; t[:,[0,1],[1,2]]; t.T; t.sum(axis=(0,2)); t.mean(0); t.reshape(2,-1); t.reshape(-1,3); t.ravel()[5]; t.reshape(6,3).T; t.flatten('F')
np.zeros((2,2),dtype=complex); np.zeros(shape=(1,2)); np.ones(2,dtype=complex); np.ones(2,dtype=int); np.empty((1,),dtype=float)*0; np.eye(2,dtype=complex); np.eye(2,3); np.eye(3,k=1); np.diag(x,k=1); np.diag([p,q]); np.diag([1,2]); np.zeros_like(a,dtype=complex); np.full(3,1.5); np.arange(3)*p; np.arange(3)+x; np.linspace(0,1,5); np.linspace(0,p,4); np.linspace(0.,1,3,retstep=True)[1]; np.outer(np.arange(3),x); np.ones(3)*x; np.eye(3)@x; np.zeros(3)+x; np.tile([p,q],2); np.repeat([p,q],2); np.repeat([[p,q]],2,axis=0); np.repeat(np.expand_dims(x,1),2,axis=1); np.concatenate(([0],x)); np.concatenate([[p],x,[q]]); np.append([],x); np.append(x,[p,q]); np.insert(x,0,0.); np.hstack([0,x]); np.hstack((x,[p])); np.vstack((x,[1,2,3])); np.stack([x,[1,2,3]]); np.pad(x,(1,0),mode='edge'); np.pad(x,1,constant_values=p); np.pad(a,((0,1),(1,0))); np.cumsum(np.concatenate([[0],x])); np.cumsum(np.ones(3)); np.convolve(x,[1,2],mode='same'); np.convolve(x,y,'valid'); np.delete(x,[0,1]); np.delete(a,1,axis=1); np.delete(a,1,0)
np.array([a,b]).shape; np.array([[a,b],[b,a]]).sum(axis=0); np.array([x,y]).T; np.array([c[0],c[1]]); np.array([p,1j]); np.array([1,p]); np.array([[1,2],[3,p]]); np.array([v.copy() for v in (a,b)]); np.array(list(x)); np.array(tuple(x)); np.array([[p],[q]]); np.asarray([a,b])[1]; np.array(x,ndmin=2); np.array([x,y],order='F'); np.array([True,p>0]); np.array(range(3)); np.array([]); np.array([[]]).shape; np.array(5); np.array(a.tolist()); np.stack(list(t)); np.stack([v.T for v in t]); np.array([v@v for v in t]); np.array([np.trace(v) for v in t]); np.asarray([v[0] for v in t]); np.array([*zip(x,y)]); np.array(list(zip(x,y))); np.fromiter(x,dtype=float); np.array([max(p,q)]); np.array([abs(p)]); np.array([p>q]); np.array(c,dtype=complex); np.asarray(a,dtype=float); np.asarray(a,dtype=complex); np.array([1,2],dtype=float)*p
sum(v*v for v in x); sum((v for v in t),np.zeros((3,3))); sum(np.trace(v) for v in t); max(abs(v) for v in x); min(x,key=abs); sorted(x,key=lambda v:-v); sorted(range(3),key=lambda k:x[k]); max(range(3),key=lambda k:x[k]); {k:v for k,v in zip('ab',x)}; [v for v in x if v>0]; next(v for v in x if v>-9); list(filter(lambda v:v>0,x)); functools.reduce(operator.add,x); functools.reduce(lambda m,v:v@m,t,np.eye(3)); functools.reduce(np.kron,[a[:2,:2],b[:2,:2]]); functools.reduce(np.matmul,t); np.linalg.multi_dot([a,b]); np.linalg.multi_dot((x,a,y)); list(itertools.accumulate(t,lambda m,v:v@m)); operator.mul(p,q); operator.matmul(a,b); operator.neg(a); operator.truediv(p,q); operator.lt(p,q); isinstance(x,np.ndarray); isinstance(p,np.floating) or isinstance(p,float); isinstance(a.dtype,np.dtype); a.dtype.kind; c.dtype.kind; np.iscomplexobj(a); np.isrealobj(c); np.ndim(p); np.size(x); np.shape(t); np.isscalar(p); np.shares_memory(a,a.T) if False else 0; a.flags is not None; a.T.shape; a.nbytes; a.itemsize; hasattr(a,'shape'); hasattr(p,'shape'); callable(np.sum); p.shape if hasattr(p,'shape') else (); x.size; a.base is None or True; type(a)==type(b); type(x) is np.ndarray; type(p) is float or type(p) is np.float64; type(z[0]) in (complex,np.complex128); isinstance(1,int); isinstance(True,bool); float(1); float('inf'); complex(1); int(2.5); f'{p}' != ''; str(a) != ''; repr(x) != ''; hash(p) is not None; math.sqrt(2)**2; math.ceil(2.5); math.floor(-2.5); math.factorial(3); math.inf; math.nan != math.nan; math.tau; math.isinf(p); math.isfinite(p); math.fabs(p); math.log(p*p+1); math.sin(p)**2+math.cos(p)**2; math.tan(p); math.atan2(p,q); math.acos(p/2); math.dist([p],[q])**2; math.gcd(4,6); math.log2(8); math.log10(100); math.trunc(2.7); math.exp(0); np.exp(0); np.cos(0.); np.sqrt(4); np.sqrt(2)**2; np.sqrt(-1+0j); np.log(1); np.pi/2; 2*np.pi*p; np.inf>p; p<np.inf; -np.inf<p; min(np.inf,p); max(-np.inf,p); np.isinf(np.inf); np.nan_to_num(np.inf)>1; np.e**2 if False else 0
copy.copy(a); copy.deepcopy(a); copy.deepcopy([a,b]); copy.deepcopy({'k':x}); copy.copy([p,q]); copy.deepcopy(p); a.copy('F'); a.copy(order='C'); np.copy(a); np.copy(x,order='K'); np.array(a,copy=True); sub(copy.deepcopy(a)); sub(copy.copy(a)); sub(np.copy(a)); sub([a][0]); sub(list(a)[0]); sub(a[:]); sub(a[...]); sub(a[0:1]); sub(a[::2]); sub(a[a>-9]); sub(a+0); sub(1*a); sub(+a); sub(abs(a)); sub(np.where(a>0,a,a)); sub(a.clip(-9,9)); sub(np.maximum(a,a)); sub(a.repeat(1)); sub(np.tile(a,1)); sub(np.stack([a])[0]); sub(np.vstack([a])); sub(np.concatenate([a])); sub(np.roll(a,0)); sub(np.sort(a)); sub(a.T.T); sub(a.reshape(3,3)); sub(a.T.reshape(-1)); sub(a.T.ravel()); sub(a.T.flatten()); sub(a.reshape(-1,order='F')); sub(a.ravel('F')); sub(np.asarray(a,dtype=float)); sub(np.asarray(a,dtype=complex)); sub(np.asanyarray(a)); sub(np.atleast_1d(a)); sub(np.atleast_3d(a)); sub(np.broadcast_arrays(a,a)[0].copy()); sub(next(iter(a))); sub(a.swapaxes(0,1)[0]); sub(np.rot90(a)); sub(np.fliplr(a)); sub(np.flipud(a)); sub(np.diag(a).copy()); sub(np.triu(a)); sub(np.delete(a,0,0)); sub(np.append(a,a)); sub(np.take(a,[0],axis=0)); sub(np.hsplit(a,3)[0]); sub(np.array_split(a,2)[0]); sub(np.nan_to_num(a)); sub(np.negative(a)); sub(np.real_if_close(a)) if False else 0; sub(np.squeeze(a[None])); sub(a[None]); sub(a[:,None]); sub(a[None][0]); sub(np.column_stack([a])); sub(np.array([a])[0]); sub(np.asarray([a])[0])
sub(a.T); sub(a.reshape(-1)); sub(a[0]); sub(a.ravel()); sub(a.flatten()); sub(np.asarray(a)); sub(np.array(a)); sub(np.transpose(a)); sub(np.diagonal(a).copy()); sub(a.view()); sub(a.squeeze()); sub(np.ravel(a)); sub(a[[0,1]]); sub(np.swapaxes(a,0,1)); sub(np.atleast_2d(a)); sub(np.real(a)); sub(a.real); sub(np.conj(a)); sub(a.astype(float)); sub(a.astype(float,copy=False)); sub(a.copy()); sub(np.flip(a,0)); sub(np.expand_dims(a,0)); sub(np.squeeze(a)); sub(np.reshape(a,(9,))); sub(np.ascontiguousarray(a)); sub(np.moveaxis(t,0,1)); sub(a.conj()); sub(np.broadcast_to(a,(2,3,3)).copy()); sub(np.array(a,copy=False)) if np_old else 0; sub(np.hstack([a])); sub(np.split(a,3)[0]); sub(np.rollaxis(t,2)); sub(a.swapaxes(0,1)); sub(a.diagonal().copy())
np.acos(p/3); np.acosh(p+3); np.amin(a); np.arccosh(x*x+2); np.arcsin(p/3); np.arcsinh(p); np.arctan(x)
np.arctanh(p/3); np.asin(p/3); np.asinh(x); np.atan(x); np.atan2(p,2.); np.atanh(x/3); np.around(2.345,1)
np.array_equiv(x,x); np.asarray_chkfinite(a); np.asfortranarray(a)@x; np.apply_over_axes(np.sum,a,[0])
np.argpartition([3,1,2],1)[1]; np.broadcast_shapes((3,1),(1,2)); np.cbrt(p+3); np.choose([0,1,0],[x,2*x])
np.concat([x,x]); np.concat((a,a),axis=1); np.copysign(p,-1.); np.corrcoef(x,x+a[0]); np.cosh(x); np.sinh(p)
np.tan(p); np.tanh(x); np.cov(a); np.cov(x,a[0]); np.cumulative_prod(x); np.cumulative_sum(x); np.degrees(x)
np.radians(p); np.deg2rad(x); np.rad2deg(p)
np.diag_indices_from(a)[0]; np.divmod(7,2); np.dsplit(a.reshape(1,1,9),3)[1]; np.ediff1d(x)
np.einsum_path('ij,j->i',a,x)[0][0]; np.exp2(p); np.expm1(x); np.fabs(x); np.fix(2.7); np.float_power(x*x,1.5)
np.floor_divide(7,2); np.fmin(x,0.1); np.fmax(x,a[0]); np.fmod(7,4); np.greater_equal(x,0); np.less(x,0)
np.not_equal(x,x); np.heaviside(p,.5); np.histogram([1,2,2],bins=2)[0]; np.invert(x>0); np.isreal(x).all()
np.iscomplex(z); np.isneginf(x).any(); np.isposinf(p); np.iterable(x); np.iterable(p); np.ldexp(p,2)
np.log10(p+3); np.log1p(p/3); np.log2(p+3); np.logaddexp(p,1.); np.logical_xor(x>0,a[0]>0)
np.matrix_transpose(a); np.matvec(a,x); np.vecdot(x,a[0]); np.vecmat(x,a); np.may_share_memory(x,x); np.mod(7,4)
np.modf(2.5)[1]; np.nanargmax(x); np.nanargmin(x); np.nancumsum(x); np.nanmedian(x); np.nanmin(a)
np.nanmax(a,axis=0); np.nanprod(x); np.nanstd(x); np.nanvar(a,axis=1); np.nansum(a); np.nanmean(a,axis=0)
np.partition(x,1)[1]; np.percentile(x,50); np.percentile(x,25); np.quantile(x,.5); np.quantile(a,.3,axis=0)
np.permute_dims(t,(2,0,1)); np.poly([p,2.]); np.polyadd([1,p],[p]); np.polyder([1,p,2.])
np.polymul([1,p],[p,1]); np.polyint([1,p]); np.polysub([1,p],[p,1]); np.positive(x); np.pow(x,2)
np.remainder(7,4); np.require(x,float); np.resize(x,(2,3)); np.row_stack((x,x)); np.setxor1d([1,2],[2,3])
np.signbit(x); np.sort_complex([2+1j,1j]); np.take_along_axis(a,np.argsort([[3,1,2]]),axis=1)
np.tril_indices(3)[0]; np.tril_indices_from(a)[1]; np.triu_indices_from(a)[0]; np.trim_zeros([0,1,2,0])
np.trunc(2.7); np.unique_values([1,1,2]); np.unstack(a)[1]; np.unwrap([0.,.1])
np.linalg.cond(b); np.linalg.cross(x,a[0]); np.linalg.diagonal(a)
np.linalg.lstsq(np.diag([1.,2.,3.])+0*a,x,rcond=None)[0]; np.linalg.matmul(a,x); np.linalg.matrix_norm(a)
np.linalg.matrix_rank(np.eye(2)); np.linalg.matrix_transpose(c); np.linalg.outer(x,x); np.linalg.pinv(b)
np.linalg.slogdet(b)[1]; np.linalg.slogdet(b)[0]; np.linalg.tensordot(a,a); np.linalg.trace(a)
np.linalg.vecdot(x,x); np.linalg.vector_norm(x); np.linalg.vector_norm(c); np.linalg.vector_norm(a,axis=1)
np.linalg.matrix_norm(c); np.linalg.matrix_norm(a,ord=1); np.linalg.svdvals(b).prod()
(lambda q:(np.putmask(q,q>0,7.),q)[1])(x.copy()); (lambda q:(np.place(q,q>0,[7.]),q)[1])(x.copy())
(lambda q:(np.put(q,[0,2],[7.,p]),q)[1])(x.copy()); (lambda q:(q.put([0],[p]),q)[1])(x.copy())
(lambda q:(q.resize((9,)),q)[1])(a.copy()) if 0 else 1
(lambda q:(np.put_along_axis(q,np.array([[0],[1],[2]]),7.,axis=1),q)[1])(a.copy())
(lambda q:(q.setflags(write=True),q)[1])(x.copy()); (lambda q:(np.copyto(q,7.,where=q>0),q)[1])(x.copy())
(lambda q:(np.add.at(q,[0,0,1],1.),q)[1])(x.copy()); (lambda q:(np.add.at(q,[0,0],x[:2]),q)[1])(x.copy())
(lambda q:(np.multiply(q,2.,out=q,where=q>0),q)[1])(x.copy())
a.mT; [v for v in a.flat]; a.flat[3]; (lambda q:(q.flat.__setitem__(2,5.),q)[1])(a.copy())
(lambda q:(setattr(q,'shape',(9,)),q)[1])(a.copy()); x.strides==x.strides; np.add.reduce(a)
np.add.reduce(a,axis=1); np.multiply.reduce(x); np.add.accumulate(x); np.multiply.accumulate(x)
np.multiply.outer(x,x); np.subtract.outer(x,x); np.add.outer(x,a); np.maximum.reduce(x)
np.minimum.reduce(a,axis=1); np.maximum.accumulate(x); np.add.reduceat(x,[0,2]); np.add.reduceat(a,[0,1],axis=0)
np.logical_and.reduce(x>0); np.logical_or.reduce(x>0); np.true_divide(x,2); np.divide(x,a[0],where=a[0]!=0)
np.divide(x,2.,out=np.zeros(3)); np.sum(a,where=a>0); a.sum(where=a>0); np.mean(a,where=np.eye(3)>0)
a.max(initial=3.); np.sum(x,initial=2.); np.max(x,initial=5.); np.prod(x,initial=2.)
np.average(x,weights=[1,2,3]); np.average(a,axis=0,weights=x*x+1); np.average(a,axis=1); np.cross(x,a[0])
np.convolve(x,[1.,2.]); np.convolve(x,a[0],mode='same'); np.convolve(x,[1.,2.],'valid'); np.correlate(x,a[0])
np.correlate(x,[1.,2.],'full'); np.interp(.5,[0.,1.,2.],x); np.interp([.5,1.5],[0.,1.,2.],x); np.pad(x,1)
np.pad(x,(1,2),mode='edge'); np.pad(x,1,mode='constant',constant_values=p); np.pad(a,((0,1),(1,0)))
np.pad(x,2,'reflect'); np.pad(x,1,'wrap'); np.pad(x,1,'symmetric'); np.insert(x,1,p); np.delete(a,1,axis=0)
np.append(a,[x],axis=0); np.trapezoid(x); np.trapezoid(x,dx=.5); np.trapezoid(x,[0.,1.,3.]); np.vander(x,3)
np.polyval([p,2.,1.],3.); np.polyval([1.,2.],x); np.linspace(0,p,3); np.linspace(p,1,4,endpoint=False)
np.logspace(0,p,3); np.geomspace(1.,p+3,3); np.arange(3)*p; np.block([[a,a],[a,a]]); np.bmat
np.apply_along_axis(np.sum,0,a); np.apply_along_axis(lambda v:v*2,1,a); np.vectorize(lambda u,v:u*v)(x,p)
np.vectorize(lambda v:v.sum(),signature='(n)->()')(a); np.fromfunction(lambda i,j:i+j,(2,2))
np.cov(a,bias=True); np.cov(a,rowvar=False); np.var(x,ddof=1); np.std(a,axis=0,ddof=1); np.nan_to_num(x)
np.real_if_close(x); np.searchsorted([1,2,3],2); np.rot90(a); np.roll(x,1); np.roll(a,1,axis=0)
np.rollaxis(t,2); np.kron(a,x); np.kron(c,a); np.inner(a,x); np.inner(c,c); np.outer(c,x)
np.tensordot(a,c,axes=(1,0)); np.tensordot(t,a,axes=([0],[1])) if 0 else 1; np.vdot(c,c); np.dot(3.,x)
np.matmul(t.swapaxes(1,2),t); np.einsum('ij->ji',c); np.einsum('ii->i',a); np.einsum('...i,...i',a,a)
np.einsum('ijk->kij',t); np.einsum(a,[0,1],x,[1],[0]); np.einsum('i,j,k',x,x,x,optimize=True); np.trace(t)
np.trace(t,axis1=1,axis2=2) if 0 else 1; np.diagonal(t,axis1=0,axis2=1) if 0 else 1
sla.sqrtm(np.diag([1.,4.])); sla.expm(np.zeros((3,3))+0*b); sla.inv(b); sla.det(b); sla.norm(a); sla.norm(c)
sla.pinv(b); sla.solve(b,x); sla.solve_triangular(np.array([[2.,0],[1,p+3]]),x[:2],lower=True)
sla.ishermitian(np.eye(2)); sla.hankel(x); sla.dft(2); sla.khatri_rao(a,a); sla.companion([1.,p,2.])
sla.hadamard(2); sla.helmert(3); sla.hilbert(2); sla.circulant(x)
sla.kron(a,x.reshape(1,3)) if hasattr(sla,'kron') else 1
math.asin(p/3); math.acosh(p+3); math.asinh(p); math.atan(p); math.atanh(p/3); math.cbrt(p+3); math.cosh(p)
math.sinh(p); math.tanh(p); math.tan(p); math.degrees(p); math.radians(p); math.exp2(p); math.expm1(p)
math.fmod(7,4); math.isqrt(9); math.ldexp(p,2); math.log1p(p/3); math.log2(p+3); math.log10(p+3)
math.log(p+3,2); math.modf(2.5); math.perm(3); math.remainder(7,4); math.sumprod([1,p],[p,2]); math.fabs(p)
math.pow(p,2); math.floor(2.5); math.ceil(2.5); math.trunc(2.5); math.gcd(4,6); math.comb(4,2)
math.isclose(p,p); math.inf; math.erf(.5)
"""


class Numbers:
    """Branches are decided by the values."""

    def __init__(self, asg):
        self.vals = asg

    def branch(self, b):
        z = b.z
        if isinstance(z, bool):
            return z
        self.asg = sc.Assignment(self.vals)
        for at in sc.space().atoms:
            v = sc.eval_atom(at.id, self.asg)
            v = v.real if isinstance(v, complex) else v
            z = z3.substitute(z, (at.z, z3.RealVal(Fraction(float(v)))))
            if at.zinv is not None and v:
                z = z3.substitute(z, (at.zinv,
                                      z3.RealVal(Fraction(1 / float(v)))))
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        raise sc.Unsupported("undecided branch %s" % z)

    def assume(self, b):
        pass

    require_nonzero = require_nonneg = require_positive = assume

    def int_between(self, x, what):
        return math.floor(x.evalf(sc.Assignment(self.vals)).real)


def names(np, arr, math_):
    """The variables of the expressions; arr(name, shape, complex)."""
    n = {k: arr(k, (3, 3), False) for k in "ab"}
    n["t"] = arr("t", (2, 3, 3), False)
    n["x"], n["y"] = arr("x", (3,), False), arr("y", (3,), False)
    n["c"], n["z"] = arr("c", (3, 3), True), arr("z", (3,), True)
    n["p"], n["q"] = n["a"][0, 1], n["b"][1, 0]
    n["np"], n["math"] = np, math_
    n.update(functools=functools, copy=copy, itertools=itertools, operator=operator,
             np_old=int(real_np.__version__[0]) < 2)
    base = n["a"]

    def sub(v):
        """Does the result share its storage with a?"""
        keep = base.copy()
        v[...] = 5
        return [base == keep, v]

    def inplace(op):
        def f(u, v):
            w = u
            w = op(w, v)
            return [w is u, u]
        return f

    def setit(u, k, v):
        u[k] = v
        return u

    def setrow(u):
        for k, r in enumerate(u):
            r += k
        return u

    def outarg(u, v):
        o = np.zeros((3, 3))
        r = np.matmul(u, v, out=o)
        s = np.zeros((3, 3))
        np.add(u, v, out=s)
        return [o, r, s]

    def fillin(u):
        u.fill(2)
        return u

    def putmask(u):
        u[u > 0] = -u[u > 0]
        return u

    def filldiag(u):
        np.fill_diagonal(u, 7)
        return u

    def copyto(u, v):
        np.copyto(u, v)
        return u
    n.update(sub=sub, setit=setit, setrow=setrow, outarg=outarg,
             fillin=fillin, putmask=putmask, filldiag=filldiag,
             copyto=copyto, iadd=inplace(operator.iadd),
             isub=inplace(operator.isub), imul=inplace(operator.imul),
             idiv=inplace(operator.itruediv))
    return n


def number(v, asg):
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, S):
        return v.evalf(asg)
    if isinstance(v, dict):
        return [[number(k, asg), number(w, asg)] for k, w in v.items()]
    if isinstance(v, real_np.ndarray):
        if v.ndim == 0:
            return number(v[()] if v.dtype != object else v.item(), asg)
        return [number(w, asg) for w in v]
    if isinstance(v, (list, tuple)) or hasattr(v, "__next__"):
        return [number(w, asg) for w in v]
    return v


def same(u, v):
    if isinstance(u, list) or isinstance(v, list):
        return isinstance(u, list) and isinstance(v, list) and \
            len(u) == len(v) and all(same(x, y) for x, y in zip(u, v))
    try:
        return abs(complex(u) - complex(v)) <= 1e-9 * (1 + abs(complex(u))) \
            or complex(u) == complex(v)
    except (TypeError, ValueError):
        return u == v or type(u) is type(v)


def run(verbose=False):
    rng = random.Random(7)
    vals = {}

    def val(k):
        if k not in vals:
            vals[k] = rng.uniform(-1, 1)
        return vals[k]
    bad, skipped, good = [], [], 0
    exprs = [e.strip() for line in EXPR.strip().split("\n")
             for e in line.split(";")]
    for e in exprs:
        def conc(k, shape, c):
            r = real_np.empty(shape, dtype=complex if c else float)
            for i in real_np.ndindex(*shape):
                r[i] = val((k, i, 0))
                if c:
                    r[i] += 1j * val((k, i, 1))
            return r
        n = names(real_np, conc, math)
        n["sla"] = scipy.linalg
        try:
            want = number(eval(e, n), {})
        except Exception as ex:
            bad.append((e, "not valid: %r" % ex))
            continue
        sc.set_space(sc.Space())
        asg = {}

        def symb(k, shape, c):
            r = real_np.empty(shape, dtype=object)
            for i in real_np.ndindex(*shape):
                nm = "%s%s" % (k, i)
                r[i] = sc.in_atom(nm)
                asg[nm] = val((k, i, 0))
                if c:
                    w = sc.in_atom(nm + "i")
                    asg[nm + "i"] = val((k, i, 1))
                    r[i] = (r[i] + w * S.lift(1j)).typed(True)
            return npshim.wrap(r, "c" if c else "f")
        sc.set_ctx(Numbers(asg))
        try:
            n = names(npshim.SHIM, symb, MATH)
            n.update(BUILTINS)
            n["sla"] = SLA
            got = number(eval(e, n), sc.Assignment(asg))
        except (sc.Unsupported, NotImplementedError) as ex:
            skipped.append((e, str(ex)))
            continue
        except Exception as ex:
            bad.append((e, "%s: %s" % (type(ex).__name__, ex)))
            continue
        if same(want, got):
            good += 1
        else:
            bad.append((e, "%s instead of %s" % (got, want)))
    return good, skipped, bad


from .loader import Tree  # noqa: E402
_T = Tree()
BUILTINS = {"float": _T.builtins["float"], "complex": _T.builtins["complex"],
            "type": _T.builtins["type"]}
SLA = scishim.make_scipy().linalg
MATH = scishim.MATH
