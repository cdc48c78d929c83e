// What the stand-in for g++ makes executables of: prints the text that was appended to its own file.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) {
    FILE* f = fopen("/proc/self/exe", "rb");
    static char b[1 << 20];
    size_t n = f ? fread(b, 1, sizeof b - 1, f) : 0;
    char m[] = "?FVTEXT\n";
    m[0] = '@';
    char* p = memmem(b, n, m, 8);
    if (!p) { puts("executable cut short"); return 8; }
    p += 8;
    size_t left = n - (size_t) (p - b);
    if (left < 7 || memcmp(b + n - 7, "EXIT ", 5)) { puts("executable cut short"); return 8; }
    fwrite(p, 1, left - 7, stdout);
    return b[n - 2] - '0';
}
