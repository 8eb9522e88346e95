struct leaf { short off, len, kind; };
struct tdesc { short kind, size, align, nel; const short *el; int nleaf; const struct leaf *lf; };
struct sigd { short abi, ret, nargs, nfixed; const short *args; void *ent; void (*lc)(void *, void **, void *); };
extern const struct tdesc TD[]; extern const struct sigd SG[]; extern const int NTD, NSG;
