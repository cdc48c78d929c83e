// A stand-in for g++ whose products are readable functions of everything a C++ compiler would read: the flags and
// the text of the source with its #includes expanded. Objects and executables of equal inputs are byte-identical.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace std;
static vector<string> dirs, marks;
static string iquote;
static set<string> seen;
static unsigned long long H = 1469598103934665603ull;
static bool ccfail;
static void fold(const string& s) { for (unsigned char c : s) { H ^= c; H *= 1099511628211ull; } H ^= 10; H *= 1099511628211ull; }
static bool slurp(const string& p, string& out) {
    struct stat st;
    if (stat(p.c_str(), &st) || !S_ISREG(st.st_mode)) return false;
    ifstream f(p, ios::binary); if (!f) return false;
    stringstream ss; ss << f.rdbuf(); out = ss.str(); return true;
}
static string dirof(const string& p) { auto i = p.rfind('/'); return i == string::npos ? string(".") : p.substr(0, i); }
static string norm(const string& p) { char* r = realpath(p.c_str(), nullptr); string s = r ? r : p; free(r); return s; }
static void expand(const string& path, const string& text) {
    istringstream in(text); string l;
    while (getline(in, l)) {
        size_t i = l.find_first_not_of(" \t");
        if (i != string::npos && l[i] == '#') {
            size_t j = l.find_first_not_of(" \t", i + 1);
            if (j != string::npos && l.compare(j, 7, "include") == 0) {
                size_t q = l.find_first_of("\"<", j + 7);
                if (q != string::npos) {
                    size_t e = l.find(l[q] == '<' ? '>' : '"', q + 1);
                    if (e != string::npos) {
                        string f = l.substr(q + 1, e - q - 1), data, found;
                        vector<string> cand;
                        if (f[0] == '/') cand.push_back(f);
                        else {
                            if (l[q] == '"') { cand.push_back(dirof(path) + "/" + f); if (!iquote.empty()) cand.push_back(iquote + "/" + f); }
                            for (auto& d : dirs) cand.push_back(d + "/" + f);
                        }
                        for (auto& c : cand) if (slurp(c, data)) { found = c; break; }
                        if (found.empty()) {
                            if (l[q] == '"' && path.find("/include/") == string::npos) {
                                printf("fatal error: %s: No such file or directory\n", f.c_str()); exit(1);
                            }
                            fold(l);
                        }
                        else if (seen.insert(norm(found)).second) expand(found, data);
                        continue;
                    }
                }
            }
        }
        if (l.find("FV_CC_FAIL") != string::npos) ccfail = true;
        for (size_t m = 0; (m = l.find("MARK_", m)) != string::npos; m++) {
            size_t e = m; while (e < l.size() && (isalnum(l[e]) || l[e] == '_')) e++;
            marks.push_back(l.substr(m, e - m));
        }
        fold(l);
    }
}
// FAKEGXX_RACE=counter|n|before/after|from|to: the n-th run renames from to to, before or after its work.
static vector<string> race; static bool mine;
static void race_start() {
    const char* r = getenv("FAKEGXX_RACE"); if (!r) return;
    stringstream ss(r); string x; while (getline(ss, x, '|')) race.push_back(x);
    FILE* f = fopen(race[0].c_str(), "ab"); fputc('x', f); fclose(f);
    struct stat st; stat(race[0].c_str(), &st);
    mine = st.st_size == atoi(race[1].c_str());
}
static void race_at(const char* when) { if (mine && race[2] == when) rename(race[3].c_str(), race[4].c_str()); }
int main(int argc, char** argv) {
    race_start(); race_at("before");
    string out, flags; vector<string> in; bool c = false;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a.empty()) continue;
        if (a == "-c") c = true;
        else if (a == "-o") out = argv[++i];
        else if (a == "-I") dirs.push_back(argv[++i]);
        else if (a == "-iquote") iquote = argv[++i];
        else if (a.compare(0, 2, "-I") == 0) dirs.push_back(a.substr(2));
        else if (a.compare(0, 2, "-W") == 0 && a.compare(0, 3, "-Wl") != 0) ;
        else if (a[0] == '-') flags += a + " ";
        else in.push_back(a);
    }
    if (out.empty() || in.empty()) { puts("fakegxx: nothing to do"); return 1; }
    string res;
    if (c) {
        string text;
        if (!slurp(in[0], text)) { printf("cc1plus: fatal error: %s: No such file or directory\n", in[0].c_str()); return 1; }
        expand(in[0], text);
        if (ccfail) { puts("error: FV_CC_FAIL"); return 1; }
        char h[32]; snprintf(h, sizeof h, "%016llx", H);
        res = "OBJ " + string(h) + " " + flags + "\n";
        for (auto& m : marks) res += "  " + m + "\n";
        res += "END\n";
    } else {
        string body; bool fail = false, exit1 = false, suite = false;
        for (auto& p : in) {
            string t;
            if (!slurp(p, t)) { printf("ld: cannot find %s: No such file or directory\n", p.c_str()); return 1; }
            if (t.compare(0, 4, "OBJ ") != 0 || t.size() < 4 || t.compare(t.size() - 4, 4, "END\n") != 0) { printf("ld: file format not recognized\n"); return 1; }
            exit1 |= t.find("MARK_EXIT1") != string::npos; suite |= t.find("-Dfu_TESTSUITE") != string::npos;
            if (flags.find("-shared") == string::npos && t.find("MARK_TESTFAIL") != string::npos && t.find("-Dfu_TESTSUITE") != string::npos) fail = true;
            body += t;
        }
        if (exit1 && !suite) fail = true;
string stub; if (!slurp(norm("/proc/self/exe") + ".exe", stub)) { puts("fakegxx: no stub"); return 1; }
        res = stub + "@FVTEXT\nLINK " + flags + "\n" + body + "EXIT " + (fail ? "7" : "0") + "\n";
    }
    int f = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (f < 0) { perror("fakegxx"); return 1; }
    size_t half = res.size() / 2;
    if (write(f, res.data(), half) != (ssize_t) half) { perror("fakegxx"); return 1; }
    if (mine && race[2] == "fault") {   // dies half way through its output
        if (race[3] == "all") kill(getppid(), SIGKILL);
        if (race[3] != "fail") raise(SIGKILL);
        puts("No space left on device"); return 1;
    }
    if (write(f, res.data() + half, res.size() - half) != (ssize_t) (res.size() - half) || close(f)) { perror("fakegxx"); return 1; }
    if (!c) chmod(out.c_str(), 0755);
    race_at("after");
    return 0;
}
