#pragma once
#include <gmp.h>
#include <string>
struct Z { mpz_t z; Z() { mpz_init(z); } Z(const std::string& s) { mpz_init_set_str(z,s.c_str(),0); } Z(const Z& a) { mpz_init_set(z,a.z); } ~Z() { mpz_clear(z); } void operator=(const Z& a) { mpz_set(z,a.z); }
  std::string str() const { char* p=mpz_get_str(0,16,z); std::string r(p); free(p); return r; }
  std::string lit() const { std::string s=str(); return s[0]=='-'?"-0x"+s.substr(1):"0x"+s; } };
static Z operator+(const Z& a,const Z& b) { Z r; mpz_add(r.z,a.z,b.z); return r; }
static Z operator-(const Z& a,const Z& b) { Z r; mpz_sub(r.z,a.z,b.z); return r; }
static Z operator*(const Z& a,const Z& b) { Z r; mpz_mul(r.z,a.z,b.z); return r; }
static Z operator/(const Z& a,const Z& b) { Z r; mpz_tdiv_q(r.z,a.z,b.z); return r; }
static Z zgcd(const Z& a,const Z& b) { Z r; mpz_gcd(r.z,a.z,b.z); return r; }
static bool operator==(const Z& a,const Z& b) { return mpz_cmp(a.z,b.z)==0; }
static bool operator!=(const Z& a,const Z& b) { return mpz_cmp(a.z,b.z)!=0; }
static Z zi(long x) { Z r; mpz_set_si(r.z,x); return r; }
