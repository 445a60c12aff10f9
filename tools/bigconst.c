
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
static uint8_t *w; 
static void hx(const char*n,unsigned char*o,int l){printf("%s ",n);for(int i=0;i<l;i++)printf("%02x",o[i]);printf("\n");fflush(stdout);}
int main(){size_t W=64u<<20;w=malloc(W);uint64_t x=0x0123456789abcdefull;for(size_t i=0;i<W;i+=8){x^=x<<13;x^=x>>7;x^=x<<17;memcpy(w+i,&x,8);}
 size_t L[2]={(512ull<<20)+77,(4096ull<<20)+(512ull<<20)+77};
 const EVP_MD*m[4]={EVP_sha1(),EVP_sha256(),EVP_sha512(),EVP_ripemd160()};
 for(int h=0;h<2;h++)for(int k=0;k<4;k++){EVP_MD_CTX*c=EVP_MD_CTX_new();EVP_DigestInit(c,m[k]);size_t n=L[h];while(n){size_t t=n<W?n:W;EVP_DigestUpdate(c,w,t);n-=t;}unsigned char o[64];unsigned l;EVP_DigestFinal(c,o,&l);hx(h?"huge":"large",o,l);}
 for(int i=0;i<4;i++){const EVP_MD*md=i&1?EVP_sha512():EVP_sha256();unsigned char o[64];unsigned l;
  if(i&2){unsigned char kd[64];EVP_MD_CTX*c=EVP_MD_CTX_new();EVP_DigestInit(c,md);size_t n=L[0];while(n){size_t t=n<W?n:W;EVP_DigestUpdate(c,w,t);n-=t;}EVP_DigestFinal(c,kd,&l);HMAC(md,kd,l,(unsigned char*)"hello",5,o,&l);}
  else {HMAC_CTX*c=HMAC_CTX_new();HMAC_Init_ex(c,"hello",5,md,0);size_t n=L[0];while(n){size_t t=n<W?n:W;HMAC_Update(c,w,t);n-=t;}HMAC_Final(c,o,&l);}
  hx("hmac",o,l);}
}