// The disk seam: files below /sim/ only exist in memory and every open and
// read of them is decided by the plan.
#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim { namespace seam {
std::map<std::string, long> fsFiredKinds;
void (*fsGenerator)(const std::string &) = nullptr;

struct VFile { int fd; std::string content; };
static std::map<std::string, VFile> & files() { static std::map<std::string, VFile> * f = new std::map<std::string, VFile>(); return *f; }
struct Open { bool used; long limit, pos; };
static const int MAXFD = 4096;
static Open opened[MAXFD];
static bool anyVirtual = false;
static std::vector<FsFault> * armed = nullptr;
static long nOpens, nReads, nFired, nBenign, nOpenFds, tReads, tOpens;
static uint64_t shortState = 0;
static bool shortReads = false;

struct Guard { bool old; Guard() : old(inSut) { inSut = false; } ~Guard() { inSut = old; } };

template<class F> static F real(const char * name) { return (F) dlsym(RTLD_NEXT, name); }

std::string normalise(const char * path) {
    std::string s;
    for (const char * p = path; *p; p++) { if (*p == '/' && !s.empty() && s.back() == '/') continue; s += *p; }
    return s;
}
static bool isVirtual(const char * path) { return path && path[0] == '/' && (strncmp(path, "/sim/", 5) == 0 || strncmp(path, "//sim/", 6) == 0); }

void fsAdd(const std::string & path, const std::string & content) {
    Guard g;
    int fd = memfd_create("sim", MFD_CLOEXEC);
    if (fd < 0) throw HarnessError{"memfd_create"};
    size_t done = 0;
    while (done < content.size()) {
        ssize_t k = ::write(fd, content.data() + done, content.size() - done);
        if (k <= 0) throw HarnessError{"memfd write"};
        done += (size_t) k;
    }
    // keep high numbered
    int high = fcntl(fd, F_DUPFD_CLOEXEC, 512);
    if (high >= 0) { real<int (*)(int)>("close")(fd); fd = high; }
    auto it = files().find(path);
    if (it != files().end()) { real<int (*)(int)>("close")(it->second.fd); files().erase(it); }
    files()[path] = VFile{fd, content};
    anyVirtual = true;
}
static std::map<std::string, std::string> & links() { static std::map<std::string, std::string> * l = new std::map<std::string, std::string>(); return *l; }
void fsLink(const std::string & name, const std::string & target) { Guard g; links()[name] = target; }
static std::string resolved(const std::string & p) {
    for (auto & l : links()) {
        if (p == l.first) return l.second;
        if (p.size() > l.first.size() && p[l.first.size()] == '/' && p.compare(0, l.first.size(), l.first) == 0) return l.second + p.substr(l.first.size());
    }
    return p;
}
bool fsHas(const std::string & path) { Guard g; return files().count(path) > 0; }
const std::string & fsContent(const std::string & path) {
    Guard g;
    auto it = files().find(path);
    if (it == files().end() && fsGenerator) { fsGenerator(path); it = files().find(path); }
    if (it == files().end()) throw HarnessError{"no virtual file " + path};
    return it->second.content;
}
void fsReset() {
    Guard g;
    for (auto & f : files()) real<int (*)(int)>("close")(f.second.fd);
    files().clear();
}
void fsArm(const std::vector<FsFault> & faults) {
    Guard g;
    if (!armed) armed = new std::vector<FsFault>();
    *armed = faults;
    fsFiredKinds.clear();
    nOpens = nReads = nFired = nBenign = 0;
    shortReads = false;
    for (auto & f : *armed) if (f.kind == "short") { shortReads = true; shortState = (uint64_t) f.n * 7919 + 17; }
}
void fsDisarm() { Guard g; if (armed) armed->clear(); shortReads = false; }
FsCounts fsCounts() { return FsCounts{nOpens, nReads, nFired, nBenign, nOpenFds, tReads, tOpens}; }

static void fired(const char * k, bool benign) { if (benign) nBenign++; else nFired++; fsFiredKinds[k]++; }

// returns a descriptor or -1 with errno
static int openVirtual(const char * path) {
    Guard g;
    nOpens++;
    tOpens++;
    std::string p = normalise(resolved(normalise(path)).c_str());
    if (armed) for (auto & f : *armed) {
        if (f.kind == "open" && f.n == nOpens) { fired("open", false); errno = f.err ? f.err : EMFILE; return -1; }
        if (f.kind == "vanish" && nOpens >= f.n) { fired("vanish", false); errno = ENOENT; return -1; }
    }
    auto it = files().find(p);
    if (it == files().end() && fsGenerator) { fsGenerator(p); it = files().find(p); }
    if (it == files().end()) { errno = ENOENT; return -1; }
    char name[64];
    snprintf(name, sizeof name, "/proc/self/fd/%d", it->second.fd);
    static int (*realOpen)(const char *, int, ...) = real<int (*)(const char *, int, ...)>("open64");
    int fd = realOpen(name, O_RDONLY | O_CLOEXEC);
    if (fd < 0) throw HarnessError{"cannot reopen memfd"};
    if (fd >= MAXFD) throw HarnessError{"descriptor out of range"};
    opened[fd].used = true;
    opened[fd].limit = -1;
    opened[fd].pos = 0;
    nOpenFds++;
    if (armed) for (auto & f : *armed) {
        if (f.kind == "trunc" && nOpens >= f.n) {
            // the file is cut after a line: f.arg is a fraction in 1/1000
            size_t at = (size_t) ((double) it->second.content.size() * (double) f.arg / 1000.0);
            while (at > 0 && it->second.content[at - 1] != '\n') at--;
            opened[fd].limit = (long) at;
        }
    }
    return fd;
}
static void closed(int fd) {
    if (fd >= 0 && fd < MAXFD && opened[fd].used) { opened[fd].used = false; nOpenFds--; }
}
} }

using namespace sim::seam;
extern "C" {
static FILE * virtualFopen(const char * path, const char * mode) {
    (void) mode;
    int fd = openVirtual(path);
    if (fd < 0) return nullptr;
    FILE * f = fdopen(fd, "r");
    if (!f) { closed(fd); real<int (*)(int)>("close")(fd); }
    return f;
}
FILE * fopen(const char * path, const char * mode) {
    static auto r = real<FILE * (*)(const char *, const char *)>("fopen");
    if (isVirtual(path)) return virtualFopen(path, mode);
    return r(path, mode);
}
FILE * fopen64(const char * path, const char * mode) {
    static auto r = real<FILE * (*)(const char *, const char *)>("fopen64");
    if (isVirtual(path)) return virtualFopen(path, mode);
    return r(path, mode);
}
int open(const char * path, int flags, ...) {
    static auto r = real<int (*)(const char *, int, ...)>("open");
    if (isVirtual(path)) return openVirtual(path);
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    return r(path, flags, m);
}
int open64(const char * path, int flags, ...) {
    static auto r = real<int (*)(const char *, int, ...)>("open64");
    if (isVirtual(path)) return openVirtual(path);
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    return r(path, flags, m);
}
int access(const char * path, int mode) {
    static auto r = real<int (*)(const char *, int)>("access");
    if (isVirtual(path)) {
        Guard g;
        std::string p = normalise(path);
        if (!fsHas(p) && fsGenerator) fsGenerator(p);
        if (fsHas(p)) return 0;
        errno = ENOENT;
        return -1;
    }
    return r(path, mode);
}
int fclose(FILE * f) {
    static auto r = real<int (*)(FILE *)>("fclose");
    closed(fileno(f));
    return r(f);
}
int close(int fd) {
    static auto r = real<int (*)(int)>("close");
    closed(fd);
    return r(fd);
}
ssize_t read(int fd, void * buf, size_t n) {
    static auto r = real<ssize_t (*)(int, void *, size_t)>("read");
    if (!anyVirtual || fd < 0 || fd >= MAXFD || !opened[fd].used) return r(fd, buf, n);
    {
        Guard g;
        nReads++;
        tReads++;
        if (armed) for (auto & f : *armed) {
            if (f.kind == "read" && f.n == nReads) { fired("read", false); errno = f.err ? f.err : EIO; return -1; }
            if (f.kind == "readp" && nReads >= f.n) { fired("read.persistent", false); errno = f.err ? f.err : EIO; return -1; }
            if (f.kind == "eintr" && f.n == nReads) { f.n = -1; fired("eintr", true); errno = EINTR; return -1; }
            if (f.kind == "eintrs" && f.n > 0 && nReads % f.n == 0) { fired("eintr", true); errno = EINTR; return -1; }
        }
        if (shortReads && n > 1) {
            shortState = shortState * 6364136223846793005ull + 1442695040888963407ull;
            size_t m = (size_t) ((shortState >> 33) % 97) + 1;
            if (((shortState >> 20) & 7) == 0) m = 1 + (size_t) ((shortState >> 40) % 2000);
            if (m < n) { n = m; fired("short", true); }
        }
        if (opened[fd].limit >= 0) {
            long pos = lseek(fd, 0, SEEK_CUR);
            if (pos >= opened[fd].limit) { fired("truncated", false); return 0; }
            if ((long) n > opened[fd].limit - pos) { n = (size_t) (opened[fd].limit - pos); fired("truncated", false); }
        }
    }
    return r(fd, buf, n);
}
ssize_t readv(int fd, const struct iovec * iov, int cnt) {
    static auto r = real<ssize_t (*)(int, const struct iovec *, int)>("readv");
    if (!anyVirtual || fd < 0 || fd >= MAXFD || !opened[fd].used) return r(fd, iov, cnt);
    for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}
}
