#!/usr/bin/env python3
"""Derives the constants of SHA-2 from their definition (fractional parts of roots of primes), so that
the reference model shares no table with the code under test."""
import os
def primes(n):
    r=[]; c=2
    while len(r)<n:
        if all(c%p for p in r): r.append(c)
        c+=1
    return r
def iroot(x,k):
    lo,hi=0,1<<((x.bit_length()//k)+1)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**k<=x: lo=m
        else: hi=m-1
    return lo
def frac_root(p,k,bits): return iroot(p<<(k*bits),k)&((1<<bits)-1)
pr=primes(80)
K512=[frac_root(p,3,64) for p in pr]
K256=[frac_root(p,3,32) for p in pr[:64]]
H256=[frac_root(p,2,32) for p in pr[:8]]
H512=[frac_root(p,2,64) for p in pr[:8]]
H384=[frac_root(p,2,64) for p in pr[8:16]]
H224=[x&0xffffffff for x in H384]
def arr(t,n,v,f): return f"static const {t} {n}[{len(v)}] = {{{', '.join(f%x for x in v)}}};\n"
o=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"sim","ref_tables.inc")
with open(o,"w") as f:
    f.write("// generated by tools/gen_tables.py\n")
    f.write(arr("uint32_t","K256",K256,"0x%08xu")+arr("uint64_t","K512",K512,"0x%016xull"))
    f.write(arr("uint32_t","H256",H256,"0x%08xu")+arr("uint32_t","H224",H224,"0x%08xu"))
    f.write(arr("uint64_t","H512",H512,"0x%016xull")+arr("uint64_t","H384",H384,"0x%016xull"))
