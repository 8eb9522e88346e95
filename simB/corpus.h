#ifndef CORPUS_H
#define CORPUS_H
enum { K_U8,K_I8,K_U16,K_I16,K_U32,K_I32,K_U64,K_I64,K_PTR,K_F32,K_F64,K_LD,K_CF,K_CD,K_CLD,K_CC,K_CS,K_CI,K_CL,K_VOID,K_STRUCT=99 };
struct leaf { int off; short len,kind; };
struct tdesc { int kind,size,align,nel; const short*el; int nleaf; const struct leaf*lf; };
struct sigd { short abi,ret,nargs,nfixed; const short*args; void*tgt[2]; void(*cal[2])(void*,void**,void*); };
extern const struct tdesc TD[]; extern const int NTD; extern const struct sigd SG[]; extern const int NSG;
#endif
