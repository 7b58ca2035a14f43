// Shared by the unit drivers: PRNG, ndjson output, argument parsing.
//   DRIVER -o FILE -s SEED -n STEPS [-m MODE] [-x EXTRA]
#ifndef UNIT_H
#define UNIT_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
static FILE *U_out; static uint64_t U_rng; static long U_n = 500; static int U_mode, U_x; static long U_seed = 1;
static uint64_t rnd64(void) {
  uint64_t z = (U_rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
static unsigned rnd(unsigned n) { return n ? (rnd64() >> 20) % n : 0; }
#define OUT(...) fprintf(U_out, __VA_ARGS__)
static void U_crash(int sig) {
  // The record being written is completed by the runner.
  static char b[64]; int n = snprintf(b, sizeof b, "\n{\"o\":\"crash\",\"sig\":%d}\n", sig);
  fflush(U_out); if (write(fileno(U_out), b, n)) {} _exit(4);
}
static void unit_args(int argc, char **argv) {
  U_out = stdout; int c;
  while ((c = getopt(argc, argv, "o:s:n:m:x:")) != -1) switch (c) {
    case 'o': U_out = fopen(optarg, "w"); if (!U_out) { perror(optarg); exit(2); } break;
    case 's': U_seed = atol(optarg); break;
    case 'n': U_n = atol(optarg); break;
    case 'm': U_mode = atoi(optarg); break;
    case 'x': U_x = atoi(optarg); break;
    default: exit(2);
  }
  U_rng = U_seed * 0x1234567ull + 99;
  for (int i = 0; i < 8; i++) rnd64();
  signal(SIGSEGV, U_crash); signal(SIGBUS, U_crash); signal(SIGILL, U_crash); signal(SIGTRAP, U_crash);
  signal(SIGABRT, U_crash); signal(SIGFPE, U_crash);
}
#endif
