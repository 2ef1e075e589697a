#!/usr/bin/env python3
"""Derives the constant tables of the reference models from their published
definitions (floor(2^32*|sin i|), fractional parts of square/cube roots of primes)."""
import math, decimal
from decimal import Decimal, getcontext
getcontext().prec = 80
def primes(n):
    r=[];k=2
    while len(r)<n:
        if all(k%p for p in r): r.append(k)
        k+=1
    return r
def iroot(x,n):
    lo,hi=0,1<<((x.bit_length()//n)+1)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**n<=x: lo=m
        else: hi=m-1
    return lo
def frac_root(p,n,bits): return iroot(p<<(n*bits),n) & ((1<<bits)-1)
def sin_dec(x):
    x=Decimal(x); t=x; s=x; k=1
    while abs(t)>Decimal(10)**-70:
        t=-t*x*x/((k+1)*(k+2)); k+=2; s+=t
    return s
md5=[int(abs(sin_dec(i))*(1<<32)) for i in range(1,65)]
P=primes(80)
def emit(name,ty,vals,w,suf):
    print('static const %s %s[%d] = {'%(ty,name,len(vals)))
    for i in range(0,len(vals),4): print('    '+', '.join('0x%0*x%s'%(w,v,suf) for v in vals[i:i+4])+',')
    print('};')
print('// generated by tools/gen_tables.py from the published definitions')
print('#pragma once\n#include <cstdint>\nnamespace ref { namespace tab {')
emit('md5_t','std::uint32_t',md5,8,'u')
emit('k256','std::uint32_t',[frac_root(p,3,32) for p in P[:64]],8,'u')
emit('k512','std::uint64_t',[frac_root(p,3,64) for p in P[:80]],16,'ull')
emit('iv256','std::uint32_t',[frac_root(p,2,32) for p in P[:8]],8,'u')
emit('iv512','std::uint64_t',[frac_root(p,2,64) for p in P[:8]],16,'ull')
emit('iv384','std::uint64_t',[frac_root(p,2,64) for p in P[8:16]],16,'ull')
emit('iv224','std::uint32_t',[frac_root(p,2,64)&0xffffffff for p in P[8:16]],8,'u')
emit('rmd_kl','std::uint32_t',[0]+[iroot(p<<60,2) for p in (2,3,5,7)],8,'u')
emit('rmd_kr','std::uint32_t',[iroot(p<<90,3) for p in (2,3,5,7)]+[0],8,'u')
print('}}')
