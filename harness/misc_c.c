/* error.h as a plain C program without GNU extensions gets it */
#include "coda/error.h"
#include <stdio.h>
const char *plain_strerror_r(int err, char *b, unsigned long n) { return coda_strerror_r(err, b, n); }
void plain_message(int err, char *out, unsigned long n) { snprintf(out, n, "<%s|%s>", coda_strerror(err), coda_strerror(1)); }
