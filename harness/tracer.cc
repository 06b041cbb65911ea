#include "tracer.h"
#include "kit.h"
#include <cerrno>
#include <cstddef>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cxxabi.h>

using std::string;

namespace tracer {

struct Shared
{
	int state; /* 0 running, 1 returned, 2 std::exception, 3 other exception */
	char what[400];
};

static string read_string(pid_t pid, unsigned long address)
{
	string s;
	while (s.length() < 4096) {
		errno = 0;
		long const w = ptrace(PTRACE_PEEKDATA, pid, reinterpret_cast<void*>(address), nullptr);
		if (errno) {
			break;
		}
		for (int i = 0; i < 8; ++i) {
			char const c = (w >> (i * 8)) & 0xff;
			if (!c) {
				return s;
			}
			s += c;
		}
		address += 8;
	}
	return s;
}

static string link_target(string const& p)
{
	char buffer[4096];
	auto const n = readlink(p.c_str(), buffer, sizeof(buffer) - 1);
	return n > 0 ? string(buffer, n) : "";
}

static string absolute(pid_t pid, long at, string const& p)
{
	if (!p.empty() && p[0] == '/') {
		return p;
	}
	string base = int(at) == AT_FDCWD ? link_target("/proc/" + std::to_string(pid) + "/cwd") : link_target("/proc/" + std::to_string(pid) + "/fd/" + std::to_string(int(at)));
	return base + "/" + p;
}

static bool fd_writable(pid_t pid, long fd)
{
	auto const info = kit::read_file("/proc/" + std::to_string(pid) + "/fdinfo/" + std::to_string(int(fd)));
	auto const p = info.find("flags:");
	return p != string::npos && (strtol(info.c_str() + p + 6, nullptr, 8) & O_ACCMODE) != O_RDONLY;
}

static bool classify(pid_t pid, user_regs_struct const& r, Call& c)
{
	c.number = r.orig_rax;
	c.writes = false;
	c.count = 0;
	auto fd_path = [&](long fd) { return link_target("/proc/" + std::to_string(pid) + "/fd/" + std::to_string(int(fd))); };
	auto path = [&](unsigned long p) { return absolute(pid, AT_FDCWD, read_string(pid, p)); };
	auto path_at = [&](long at, unsigned long p) { return absolute(pid, at, read_string(pid, p)); };
	switch (c.number) {
	case SYS_open: c.name = "open"; c.path = path(r.rdi); c.writes = (r.rsi & O_ACCMODE) != O_RDONLY; return true;
	case SYS_openat: c.name = "open"; c.path = path_at(r.rdi, r.rsi); c.writes = (r.rdx & O_ACCMODE) != O_RDONLY; return true;
	case SYS_creat: c.name = "open"; c.path = path(r.rdi); c.writes = true; return true;
	case SYS_write: c.name = "write"; c.path = fd_path(r.rdi); c.writes = true; c.count = r.rdx; return true;
	case SYS_pwrite64: c.name = "pwrite"; c.path = fd_path(r.rdi); c.writes = true; c.count = r.rdx; return true;
	case SYS_writev: c.name = "writev"; c.path = fd_path(r.rdi); c.writes = true; return true;
	case SYS_sendfile: c.name = "sendfile"; c.path = fd_path(r.rdi); c.writes = true; c.count = r.r10; return true;
	case SYS_copy_file_range: c.name = "copy_file_range"; c.path = fd_path(r.rdx); c.writes = true; c.count = r.r8; return true;
	case SYS_close: {
		c.name = "close";
		c.path = fd_path(r.rdi);
		c.writes = fd_writable(pid, r.rdi);
		return true;
	}
	case SYS_fsync: case SYS_fdatasync: c.name = "fsync"; c.path = fd_path(r.rdi); c.writes = true; return true;
	case SYS_ftruncate: c.name = "ftruncate"; c.path = fd_path(r.rdi); c.writes = true; return true;
	case SYS_truncate: c.name = "truncate"; c.path = path(r.rdi); c.writes = true; return true;
	case SYS_fallocate: c.name = "fallocate"; c.path = fd_path(r.rdi); c.writes = true; return true;
	case SYS_rename: c.name = "rename"; c.path = path(r.rdi); c.path2 = path(r.rsi); c.writes = true; return true;
	case SYS_renameat: case SYS_renameat2: c.name = "rename"; c.path = path_at(r.rdi, r.rsi); c.path2 = path_at(r.rdx, r.r10); c.writes = true; return true;
	case SYS_link: c.name = "link"; c.path = path(r.rdi); c.path2 = path(r.rsi); c.writes = true; return true;
	case SYS_linkat: c.name = "link"; c.path = path_at(r.rdi, r.rsi); c.path2 = path_at(r.rdx, r.r10); c.writes = true; return true;
	case SYS_unlink: case SYS_rmdir: c.name = "unlink"; c.path = path(r.rdi); c.writes = true; return true;
	case SYS_unlinkat: c.name = "unlink"; c.path = path_at(r.rdi, r.rsi); c.writes = true; return true;
	case SYS_mkdir: c.name = "mkdir"; c.path = path(r.rdi); c.writes = true; return true;
	case SYS_mkdirat: c.name = "mkdir"; c.path = path_at(r.rdi, r.rsi); c.writes = true; return true;
	case SYS_read: c.name = "read"; c.path = fd_path(r.rdi); return true;
	case SYS_pread64: c.name = "read"; c.path = fd_path(r.rdi); return true;
	case SYS_lseek: c.name = "lseek"; c.path = fd_path(r.rdi); return true;
	}
	return false;
}

static bool inside(string const& path, string const& dir)
{
	return path.compare(0, dir.length(), dir) == 0 && (path.length() == dir.length() || path[dir.length()] == '/');
}

Outcome run(string const& dir, std::function<void ()> fn, Plan plan, std::function<void (Call const&, bool)> observer)
{
	auto shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (shared == MAP_FAILED) {
		kit::harness_error("mmap failed");
	}
	shared->state = 0;
	shared->what[0] = '\0';

	pid_t const pid = fork();
	if (pid < 0) {
		kit::harness_error("fork failed");
	}
	if (pid == 0) {
		if (ptrace(PTRACE_TRACEME, 0, nullptr, nullptr) != 0) {
			_exit(99);
		}
		raise(SIGSTOP);
		try {
			fn();
			shared->state = 1;
		} catch (std::exception& e) {
			strncpy(shared->what, (kit::type_name(e) + ": " + e.what()).c_str(), sizeof(shared->what) - 1);
			shared->state = 2;
		} catch (...) {
			shared->state = 3;
		}
		_exit(0);
	}

	Outcome out;
	int status = 0;
	if (waitpid(pid, &status, 0) != pid || !WIFSTOPPED(status)) {
		kit::harness_error("could not trace a child process");
	}
	ptrace(PTRACE_SETOPTIONS, pid, nullptr, reinterpret_cast<void*>(PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL));
	size_t index = 0;
	bool entering = true;
	bool pending = false;
	bool fail_pending = false;
	Call current;
	int signal_to_send = 0;
	while (true) {
		ptrace(PTRACE_SYSCALL, pid, nullptr, reinterpret_cast<void*>(static_cast<long>(signal_to_send)));
		signal_to_send = 0;
		if (waitpid(pid, &status, 0) != pid) {
			kit::harness_error("lost a traced child");
		}
		if (WIFEXITED(status)) {
			if (shared->state == 0) {
				out.crashed = true;
			}
			break;
		}
		if (WIFSIGNALED(status)) {
			if (!out.killed) {
				out.crashed = true;
				out.signal = WTERMSIG(status);
			}
			break;
		}
		if (!WIFSTOPPED(status)) {
			continue;
		}
		int const sig = WSTOPSIG(status);
		if (sig != (SIGTRAP | 0x80)) {
			signal_to_send = sig == SIGTRAP ? 0 : sig;
			continue;
		}
		user_regs_struct regs;
		if (ptrace(PTRACE_GETREGS, pid, nullptr, &regs) != 0) {
			continue;
		}
		if (entering) {
			entering = false;
			Call c;
			pending = false;
			fail_pending = false;
			if (shared->state == 0 && classify(pid, regs, c) && (inside(c.path, dir) || inside(c.path2, dir))) {
				pending = true;
				current = c;
				bool const here = index == plan.at;
				if (observer) {
					observer(c, true);
				}
				if (here && plan.action == Action::KILL_BEFORE) {
					out.killed = out.acted = true;
					out.calls.push_back(c);
					kill(pid, SIGKILL);
					waitpid(pid, &status, 0);
					break;
				}
				if ((here && plan.action == Action::FAIL) || (((index >= plan.at && plan.action == Action::FAIL_FROM) || (index > plan.at && plan.action == Action::FILL)) && c.writes && c.name != "close" && c.name != "unlink")) {
					fail_pending = true;
					out.acted = true;
					if (c.name == "close") {
						/* the descriptor is closed all the same, as close(2) says */
					} else {
						regs.orig_rax = -1;
						ptrace(PTRACE_SETREGS, pid, nullptr, &regs);
					}
				}
				if (here && (plan.action == Action::SHORT || plan.action == Action::FILL) && c.name == "write" && c.count > 1) {
					regs.rdx = c.count / 2;
					out.acted = true;
					ptrace(PTRACE_SETREGS, pid, nullptr, &regs);
				}
				out.calls.push_back(c);
				++index;
			}
		} else {
			entering = true;
			if (pending) {
				if (fail_pending) {
					if ((current.name == "close" || current.name == "fsync") && current.writes) {
						/* the error is about data accepted earlier: it is lost */
						struct stat st;
						if (stat(current.path.c_str(), &st) == 0 && S_ISREG(st.st_mode) && truncate(current.path.c_str(), st.st_size / 2) != 0) {
							kit::harness_error("could not truncate");
						}
					}
					regs.rax = -plan.error;
					ptrace(PTRACE_SETREGS, pid, nullptr, &regs);
				}
				if (observer) {
					observer(current, false);
				}
				if (index == plan.at + 1 && plan.action == Action::KILL_AFTER && out.calls.size() == index) {
					out.killed = out.acted = true;
					kill(pid, SIGKILL);
					waitpid(pid, &status, 0);
					break;
				}
			}
		}
	}
	out.returned = shared->state == 1;
	out.threw = shared->state == 2 || shared->state == 3;
	out.std_exception = shared->state == 2;
	out.what = shared->what;
	munmap(shared, sizeof(Shared));
	return out;
}

bool available()
{
	static int known = -1;
	if (known == -1) {
		known = 0;
		auto const dir = kit::fresh_dir("tracer-test");
		auto const o = run(dir, [dir]() {
			int const fd = open((dir + "/x").c_str(), O_CREAT | O_WRONLY, 0600);
			if (write(fd, "hello", 5) != 5) {
				throw std::runtime_error("short");
			}
			close(fd);
		});
		if (o.returned && o.calls.size() == 3) {
			known = 1;
		}
		kit::remove_tree(dir);
	}
	return known;
}

}
