// In-memory files behind interposed file system calls. The harness decides every answer; every call is recorded.
// Simulated descriptors live in [BASE, BASE+MAXFD), the lowest free one is handed out (as the kernel does);
// everything else is passed to the real kernel.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>

namespace simfs {

constexpr int BASE = 100, MAXFD = 40;

enum class Op { open, close, dup, read, write, pread, pwrite, fstat, ftruncate, lseek, fchmod, futimens, other };
const char* name(Op);

struct Inode {
  int id = 0;
  std::map<int64_t, unsigned char> bytes; // absent: 0
  int64_t size = 0;
  mode_t mode = S_IFREG | 0644;
  timespec at{1000, 5}, mt{2000, 6};
  std::string text() const
  {
    std::string s((size_t)size, '\0');
    for (auto& [o, b] : bytes) if (o < size) s[(size_t)o] = (char)b;
    return s;
  }
  void set(const std::string& s)
  {
    bytes.clear(); size = (int64_t)s.size();
    for (size_t i = 0; i < s.size(); ++i) bytes[(int64_t)i] = (unsigned char)s[i];
  }
};

struct Ofd { int id = 0; Inode* inode = nullptr; int64_t pos = 0; int flags = 0; int refs = 0; };

struct Call {
  Op op = Op::other;
  int fd = -1;
  Ofd* ofd = nullptr;       // null: not an open simulated descriptor
  std::string path;         // open
  int flags = 0, mode = 0;  // open
  const iovec* iov = nullptr; int iovcnt = 0;
  int64_t total = 0;        // bytes asked for
  int64_t offset = 0;       // positioned calls, lseek, ftruncate
  int whence = 0;
  // decided by the policy
  int force_errno = 0;      // fail with this
  bool effect = true;       // forced failure of close: is the descriptor gone? (Linux: yes)
  int64_t limit = -1;       // transfer at most this many bytes
  // outcome
  int64_t result = 0; int err = 0;
  int thread = -1;
  int64_t at = -1;           // position of the transfer
  int inode_id = -1, ofd_id = -1;
  bool write_like() const { return op == Op::write || op == Op::pwrite; }
  bool read_like() const { return op == Op::read || op == Op::pread; }
  bool io() const { return write_like() || read_like(); }
};

struct World {
  std::vector<Inode*> inodes;
  std::map<std::string, Inode*> names;
  std::vector<Ofd*> ofds;
  Ofd* fds[MAXFD] = {};
  bool cloexec[MAXFD] = {};
  int nofile = MAXFD;
  std::vector<Call> log;
  std::function<void(Call&)> before; // a scheduling point / answers; called with the descriptor not yet resolved
  std::function<void(Call&)> policy; // chooses the answer; called with the descriptor resolved
  std::function<void(const Call&)> after;

  ~World();
  Inode* create(const std::string& path, const std::string& text);
  int count_open() const { int n = 0; for (auto* o : fds) n += o != nullptr; return n; }
  int calls(Op op) const { int n = 0; for (auto& c : log) n += c.op == op; return n; }
};

extern World* world;         // null: everything goes to the kernel
extern bool simulate_paths;  // paths beginning with /sim/ are simulated (others never are)

std::string describe(const Call&);
}
