/* rand() of the programs under test.  Without VERIF_RAND: the C library's sequence.  With
   VERIF_RAND=kind:n:seed the first n values are chosen to be unlucky. */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

static int ready, kind;         /* 0: none */
static long n, used;
static unsigned long long st;

static unsigned next(void)
{
  st = st * 6364136223846793005ULL + 1442695040888963407ULL;
  return (unsigned) (st >> 33);
}

static void init(void)
{
  const char *e = getenv("VERIF_RAND");
  char name[16];
  unsigned long long seed = 1;
  ready = 1;
  if (!e || sscanf(e, "%15[a-z]:%ld:%llu", name, &n, &seed) < 2)
    return;
  st = seed * 2654435761ULL + 12345;
  next();
  const char *names[] = { "", "zero", "bits", "small", "same", "max", "mix", "other", 0 };
  int i;
  for (i = 1; names[i]; i++)
    if (!strcmp(names[i], name))
      kind = i;
}

int rand(void)
{
  if (!ready)
    init();
  if (!kind || (used >= n))
    return (int) random();
  used++;
  switch (kind) {
  case 1: return 0;
  case 2: return next() & 1;
  case 3: return next() % 4;
  case 4: return (int) (st >> 33);
  case 5: return RAND_MAX;
  case 6: return next() & 1 ? 0 : (int) (next() & RAND_MAX);
  default: return (int) (next() & RAND_MAX);
  }
}

void srand(unsigned s)
{
  srandom(s);
}
