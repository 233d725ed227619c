// Converts an FST file to VCD with the reader of /repo's thirdparty/fstapi.c
#include <stdio.h>
#include "fstapi.h"
int main(int argc, char **argv)
{
   void *xc = fstReaderOpen(argv[1]);
   FILE *f = fopen(argv[2], "wb");
   if (xc == NULL || f == NULL) return 1;
   fstReaderSetVcdExtensions(xc, 1);
   if (!fstReaderProcessHier(xc, f)) return 2;
   fstReaderSetFacProcessMaskAll(xc);
   fstReaderIterBlocks(xc, NULL, NULL, f);
   fstReaderClose(xc);
   return fclose(f);
}
