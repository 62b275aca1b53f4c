#include "vshim/butil.h"
#include <filesystem>
#include <fstream>
#include <random>
namespace butil {
static std::mt19937_64& Rng() {
  static thread_local std::mt19937_64 r(std::hash<std::thread::id>()(std::this_thread::get_id()) * 0x9e3779b97f4a7c15ull +
                                        (uint64_t)gettimeofday_us());
  return r;
}
uint64_t fast_rand() { return Rng()(); }
uint64_t fast_rand_less_than(uint64_t r) { return r ? fast_rand() % r : 0; }
double fast_rand_double() { return (fast_rand() >> 11) * (1.0 / 9007199254740992.0); }

TrimPositions TrimWhitespaceASCII(const std::string& in, TrimPositions pos, std::string* out) {
  size_t b = 0, e = in.size();
  auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  if (pos & TRIM_LEADING)
    while (b < e && sp(in[b])) ++b;
  if (pos & TRIM_TRAILING)
    while (e > b && sp(in[e - 1])) --e;
  int r = (b != 0 ? TRIM_LEADING : 0) | (e != in.size() ? TRIM_TRAILING : 0);
  *out = in.substr(b, e - b);
  return (TrimPositions)r;
}
// chromium semantics: pieces are trimmed; a single empty piece yields an empty vector.
void SplitString(const std::string& str, char c, std::vector<std::string>* r) {
  r->clear();
  size_t last = 0;
  for (size_t i = 0; i <= str.size(); ++i) {
    if (i == str.size() || str[i] == c) {
      std::string t;
      TrimWhitespaceASCII(str.substr(last, i - last), TRIM_ALL, &t);
      if (i != str.size() || !r->empty() || !t.empty()) r->push_back(t);
      last = i + 1;
    }
  }
}
void SplitStringUsingSubstr(const std::string& str, const std::string& s, std::vector<std::string>* r) {
  r->clear();
  size_t b = 0;
  for (;;) {
    size_t e = str.find(s, b);
    std::string t;
    TrimWhitespaceASCII(e == std::string::npos ? str.substr(b) : str.substr(b, e - b), TRIM_ALL, &t);
    r->push_back(t);
    if (e == std::string::npos) return;
    b = e + s.size();
  }
}
bool StringToInt64(const StringPiece& s, int64_t* v) {
  std::string t = s.as_string();
  if (t.empty()) return false;
  char* e;
  errno = 0;
  *v = strtoll(t.c_str(), &e, 10);
  return *e == 0 && errno == 0;
}
bool StringToUint64(const StringPiece& s, uint64_t* v) {
  std::string t = s.as_string();
  if (t.empty() || t[0] == '-') return false;
  char* e;
  errno = 0;
  *v = strtoull(t.c_str(), &e, 10);
  return *e == 0 && errno == 0;
}
bool StringToInt(const StringPiece& s, int* v) {
  int64_t x;
  if (!StringToInt64(s, &x)) return false;
  *v = (int)x;
  return x == (int)x;
}
namespace crc32c {
uint32_t Extend(uint32_t init, const char* d, size_t n) {
  static uint32_t table[256];
  static bool once = [] {
    for (uint32_t i = 0; i < 256; ++i) {
      uint32_t c = i;
      for (int k = 0; k < 8; ++k) c = c & 1 ? 0x82f63b78u ^ (c >> 1) : c >> 1;
      table[i] = c;
    }
    return true;
  }();
  (void)once;
  uint32_t c = init ^ 0xffffffffu;
  for (size_t i = 0; i < n; ++i) c = table[(c ^ (uint8_t)d[i]) & 0xff] ^ (c >> 8);
  return c ^ 0xffffffffu;
}
}  // namespace crc32c
void MurmurHash3_x86_32(const void* key, int len, uint32_t seed, void* out) {
  const uint8_t* data = (const uint8_t*)key;
  const int nblocks = len / 4;
  uint32_t h1 = seed;
  const uint32_t c1 = 0xcc9e2d51, c2 = 0x1b873593;
  auto rotl = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
  for (int i = 0; i < nblocks; i++) {
    uint32_t k1;
    memcpy(&k1, data + i * 4, 4);
    k1 *= c1;
    k1 = rotl(k1, 15);
    k1 *= c2;
    h1 ^= k1;
    h1 = rotl(h1, 13);
    h1 = h1 * 5 + 0xe6546b64;
  }
  const uint8_t* tail = data + nblocks * 4;
  uint32_t k1 = 0;
  switch (len & 3) {
    case 3: k1 ^= tail[2] << 16; [[fallthrough]];
    case 2: k1 ^= tail[1] << 8; [[fallthrough]];
    case 1:
      k1 ^= tail[0];
      k1 *= c1;
      k1 = rotl(k1, 15);
      k1 *= c2;
      h1 ^= k1;
  }
  h1 ^= len;
  h1 ^= h1 >> 16;
  h1 *= 0x85ebca6b;
  h1 ^= h1 >> 13;
  h1 *= 0xc2b2ae35;
  h1 ^= h1 >> 16;
  memcpy(out, &h1, 4);
}
File::Error File::OSErrorToFileError(int e) {
  switch (e) {
    case EACCES: case EISDIR: case EROFS: case EPERM: return FILE_ERROR_ACCESS_DENIED;
    case ETXTBSY: return FILE_ERROR_IN_USE;
    case EEXIST: return FILE_ERROR_EXISTS;
    case ENOENT: return FILE_ERROR_NOT_FOUND;
    case EMFILE: return FILE_ERROR_TOO_MANY_OPENED;
    case ENOMEM: return FILE_ERROR_NO_MEMORY;
    case ENOSPC: return FILE_ERROR_NO_SPACE;
    case ENOTDIR: return FILE_ERROR_NOT_A_DIRECTORY;
    default: return FILE_ERROR_FAILED;
  }
}
namespace fs = std::filesystem;
bool DeleteFile(const FilePath& p, bool recursive) {
  std::error_code ec;
  if (!fs::exists(fs::symlink_status(p.value(), ec))) return true;
  if (recursive) fs::remove_all(p.value(), ec);
  else fs::remove(p.value(), ec);
  return !ec;
}
bool PathExists(const FilePath& p) { return access(p.value().c_str(), F_OK) == 0; }
bool DirectoryExists(const FilePath& p) {
  struct stat st;
  return stat(p.value().c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}
bool CreateDirectoryAndGetError(const FilePath& p, File::Error* e, bool parents) {
  std::error_code ec;
  if (parents) fs::create_directories(p.value(), ec);
  else fs::create_directory(p.value(), ec);
  if (ec && !DirectoryExists(p)) {
    if (e) *e = File::OSErrorToFileError(ec.value());
    return false;
  }
  return true;
}
bool CreateDirectory(const FilePath& p) { return CreateDirectoryAndGetError(p, nullptr); }
bool ReplaceFile(const FilePath& a, const FilePath& b, File::Error* e) {
  if (rename(a.value().c_str(), b.value().c_str()) == 0) return true;
  if (e) *e = File::OSErrorToFileError(errno);
  return false;
}
bool GetFileSize(const FilePath& p, int64_t* s) {
  struct stat st;
  if (stat(p.value().c_str(), &st)) return false;
  *s = st.st_size;
  return true;
}
bool ReadFileToString(const FilePath& p, std::string* s) {
  std::ifstream f(p.value(), std::ios::binary);
  if (!f) return false;
  std::stringstream ss;
  ss << f.rdbuf();
  if (s) *s = ss.str();
  return true;
}
int WriteFile(const FilePath& p, const char* d, int n) {
  std::ofstream f(p.value(), std::ios::binary | std::ios::trunc);
  if (!f) return -1;
  f.write(d, n);
  return f ? n : -1;
}
}  // namespace butil
