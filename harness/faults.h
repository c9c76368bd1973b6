/* Run an operation in a child whose system calls on files below a directory can be made to fail, to do only part of what
 * they were asked, or to be the last thing that the child does.
 */

#ifndef FAULTS_H
#define FAULTS_H

#include "mc.h"
#include <errno.h>
#include <functional>
#include <signal.h>
#include <string>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace faults {

enum class Kind
{
	/** fail with an error */
	ERROR,
	/** transfer fewer bytes than asked for */
	SHORT,
	/** the process ends here, before the call */
	KILL,
	/** the process ends just after the call */
	KILL_AFTER,
	/** the process ends after the call has done part of its work */
	SHORT_KILL,
	/** this, and every later call which writes to a file, fails as there is no room */
	FULL
};

struct Fault
{
	int index;
	Kind kind;
	/** error, or number of bytes */
	int64_t value;
};

struct Call
{
	long number;
	uint64_t length;
	std::string name;
	std::string path;

	bool transfer() const {
		return number == SYS_write || number == SYS_read || number == SYS_pwrite64 || number == SYS_pread64;
	}

	bool writes() const {
		return number == SYS_write || number == SYS_pwrite64 || number == SYS_writev;
	}

	bool needs_room() const {
		return writes() || number == SYS_copy_file_range || number == SYS_sendfile || number == SYS_fallocate;
	}
};

struct Result
{
	/** it was ended by one of the faults */
	bool killed = false;
	/** what the operation returned, if it got that far */
	int code = -1;
	/** signal which ended it, if that was not one of the faults */
	int signal = 0;
	/** calls on files below the directory */
	std::vector<Call> calls;
};

struct Known
{
	long number;
	char const* name;
	/** arguments which are a path (bit 0 for the first, and so on) */
	int paths;
	/** argument which is a descriptor, or -1 */
	int fd;
};

inline Known const* known(long number)
{
	static Known const table[] = {
		{ SYS_open, "open", 1, -1 }, { SYS_openat, "openat", 2, -1 }, { SYS_creat, "creat", 1, -1 },
		{ SYS_read, "read", 0, 0 }, { SYS_write, "write", 0, 0 }, { SYS_pread64, "pread", 0, 0 }, { SYS_pwrite64, "pwrite", 0, 0 },
		{ SYS_readv, "readv", 0, 0 }, { SYS_writev, "writev", 0, 0 }, { SYS_close, "close", 0, 0 }, { SYS_lseek, "lseek", 0, 0 },
		{ SYS_fstat, "fstat", 0, 0 }, { SYS_stat, "stat", 1, -1 }, { SYS_lstat, "lstat", 1, -1 }, { SYS_newfstatat, "fstatat", 2, 0 }, { SYS_statx, "statx", 2, 0 },
		{ SYS_rename, "rename", 3, -1 }, { SYS_renameat, "renameat", 2 | 8, -1 }, { SYS_renameat2, "renameat2", 2 | 8, -1 },
		{ SYS_unlink, "unlink", 1, -1 }, { SYS_unlinkat, "unlinkat", 2, -1 }, { SYS_mkdir, "mkdir", 1, -1 }, { SYS_mkdirat, "mkdirat", 2, -1 }, { SYS_rmdir, "rmdir", 1, -1 },
		{ SYS_ftruncate, "ftruncate", 0, 0 }, { SYS_truncate, "truncate", 1, -1 }, { SYS_fsync, "fsync", 0, 0 }, { SYS_fdatasync, "fdatasync", 0, 0 },
		{ SYS_link, "link", 3, -1 }, { SYS_linkat, "linkat", 2 | 8, -1 }, { SYS_symlink, "symlink", 2, -1 }, { SYS_symlinkat, "symlinkat", 4, -1 },
		{ SYS_fallocate, "fallocate", 0, 0 }, { SYS_copy_file_range, "copy_file_range", 0, 2 }, { SYS_sendfile, "sendfile", 0, 0 }, { SYS_chmod, "chmod", 1, -1 },
		{ SYS_fchmod, "fchmod", 0, 0 }, { SYS_access, "access", 1, -1 }, { SYS_faccessat, "faccessat", 2, -1 }
	};
	for (auto const& i: table) {
		if (i.number == number) {
			return &i;
		}
	}
	return nullptr;
}

inline std::string read_string(pid_t pid, uint64_t address)
{
	std::string s;
	char b[256];
	while (s.length() < 4096) {
		/* not over the end of a page, as the next might not be there */
		size_t const n = std::min(sizeof(b), size_t(4096 - (address & 4095)));
		iovec local = { b, n };
		iovec remote = { reinterpret_cast<void*>(address), n };
		auto const got = process_vm_readv(pid, &local, 1, &remote, 1, 0);
		if (got <= 0) {
			break;
		}
		for (ssize_t i = 0; i < got; ++i) {
			if (!b[i]) {
				return s;
			}
			s += b[i];
		}
		address += got;
	}
	return s;
}

inline void fail(char const* what)
{
	printf("faults: %s: %s\n", what, strerror(errno));
	fflush(stdout);
	_exit(77);
}

/** @param directory absolute path with no links
 *  @param op what to run; 0-100 to be returned
 */
inline Result run(std::string const& directory, std::function<int ()> op, std::vector<Fault> const& faults)
{
	fflush(stdout);
	pid_t const pid = fork();
	if (pid < 0) {
		fail("fork");
	}
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (ptrace(PTRACE_TRACEME, 0, 0, 0) < 0) {
			_exit(120);
		}
		kill(getpid(), SIGSTOP);
		int const r = op();
		_exit(r);
	}
	int status = 0;
	if (waitpid(pid, &status, 0) < 0 || !WIFSTOPPED(status)) {
		fail("child did not stop");
	}
	if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL) < 0) {
		fail("ptrace");
	}
	Result result;
	bool after = false;
	Fault const* current = nullptr;
	bool relevant = false;
	int signal = 0;
	while (true) {
		if (ptrace(PTRACE_SYSCALL, pid, 0, signal) < 0 && errno != ESRCH) {
			fail("ptrace");
		}
		signal = 0;
		if (waitpid(pid, &status, 0) < 0) {
			fail("waitpid");
		}
		if (WIFEXITED(status)) {
			result.code = WEXITSTATUS(status);
			if (result.code == 120) {
				fail("child could not be traced");
			}
			return result;
		}
		if (WIFSIGNALED(status)) {
			if (!result.killed) {
				result.signal = WTERMSIG(status);
			}
			return result;
		}
		int const stop = WSTOPSIG(status);
		if (stop != (SIGTRAP | 0x80)) {
			signal = stop == SIGSTOP ? 0 : stop;
			continue;
		}
		user_regs_struct regs;
		if (ptrace(PTRACE_GETREGS, pid, 0, &regs) < 0) {
			fail("getregs");
		}
		if (!after) {
			after = true;
			current = nullptr;
			auto const k = known(regs.orig_rax);
			relevant = false;
			if (!k) {
				continue;
			}
			unsigned long long const args[6] = { regs.rdi, regs.rsi, regs.rdx, regs.r10, regs.r8, regs.r9 };
			Call call = { static_cast<long>(regs.orig_rax), regs.rdx, k->name, "" };
			for (int i = 0; i < 6; ++i) {
				if (k->paths & (1 << i)) {
					auto p = read_string(pid, args[i]);
					if (!p.empty() && p[0] != '/') {
						char link[64], cwd[4096];
						snprintf(link, sizeof(link), "/proc/%d/cwd", pid);
						auto const n = readlink(link, cwd, sizeof(cwd));
						p = std::string(cwd, n < 0 ? 0 : n) + "/" + p;
					}
					if (p.compare(0, directory.length() + 1, directory + "/") == 0) {
						relevant = true;
						call.path += (call.path.empty() ? "" : " ") + p.substr(directory.length() + 1);
					}
				}
			}
			if (!relevant && k->fd >= 0) {
				char link[64], target[4096];
				snprintf(link, sizeof(link), "/proc/%d/fd/%d", pid, static_cast<int>(args[k->fd]));
				auto const n = readlink(link, target, sizeof(target));
				std::string const t(target, n < 0 ? 0 : n);
				if (t.compare(0, directory.length() + 1, directory + "/") == 0) {
					relevant = true;
					call.path = t.substr(directory.length() + 1);
				}
			}
			if (!relevant) {
				continue;
			}
			int const index = result.calls.size();
			result.calls.push_back(call);
			for (auto const& f: faults) {
				if (f.kind == Kind::FULL ? (index >= f.index && call.needs_room()) : f.index == index) {
					current = &f;
				}
			}
			if (!current) {
				continue;
			}
			if (current->kind == Kind::KILL) {
				result.killed = true;
				kill(pid, SIGKILL);
				continue;
			}
			if (current->kind == Kind::FULL || (current->kind == Kind::ERROR && regs.orig_rax != SYS_close)) {
				regs.orig_rax = -1;
				ptrace(PTRACE_SETREGS, pid, 0, &regs);
			} else if (current->kind == Kind::SHORT || current->kind == Kind::SHORT_KILL) {
				regs.rdx = std::min(regs.rdx, static_cast<unsigned long long>(current->value));
				ptrace(PTRACE_SETREGS, pid, 0, &regs);
			}
		} else {
			after = false;
			if (!current) {
				continue;
			}
			if (current->kind == Kind::FULL) {
				regs.rax = -ENOSPC;
				ptrace(PTRACE_SETREGS, pid, 0, &regs);
			} else if (current->kind == Kind::ERROR) {
				regs.rax = -current->value;
				ptrace(PTRACE_SETREGS, pid, 0, &regs);
			} else if (current->kind == Kind::SHORT_KILL || current->kind == Kind::KILL_AFTER) {
				result.killed = true;
				kill(pid, SIGKILL);
			}
		}
	}
}

inline std::string describe(std::vector<Fault> const& faults, Result const& r)
{
	std::string s;
	for (auto const& f: faults) {
		s += s.empty() ? "" : ", then ";
		std::string const call = f.index < int(r.calls.size()) ? r.calls[f.index].name + " of " + r.calls[f.index].path : "call";
		switch (f.kind) {
		case Kind::ERROR: s += mc::format("%s (%d) failing with '%s'", call.c_str(), f.index, strerror(f.value)); break;
		case Kind::SHORT: s += mc::format("%s (%d) transferring only %d bytes", call.c_str(), f.index, int(f.value)); break;
		case Kind::KILL: s += mc::format("a crash before %s (%d)", call.c_str(), f.index); break;
		case Kind::KILL_AFTER: s += mc::format("a crash after %s (%d)", call.c_str(), f.index); break;
		case Kind::FULL: s += mc::format("no room from %s (%d) on", call.c_str(), f.index); break;
		case Kind::SHORT_KILL: s += mc::format("a crash after %d bytes of %s (%d)", int(f.value), call.c_str(), f.index); break;
		}
	}
	return s;
}

}

#endif
