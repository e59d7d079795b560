#include "oracle.h"
#include "props.h"

#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <memory>

/* C31: the library built with stand-ins for the system. */

/* memory of exactly the size asked for, so that reads beyond it are noticed */
struct Exact {
	std::vector<std::unique_ptr<u8[]>> blocks;
	void* zeros(size_t n) {
		blocks.emplace_back(new u8[n ? n : 1]());
		return blocks.back().get();
	}
	char* copy(const void* p, size_t n) {
		blocks.emplace_back(new u8[n]);
		if (n)
			memcpy(blocks.back().get(), p, n);
		return (char*)blocks.back().get();
	}
	char* text(const str& s) { return copy(s.c_str(), s.size() + 1); }
};

/* Files handed to the library */
struct Files {
	Exact mem;
	std::vector<std::pair<str, str>> list; /* name and content */
	std::vector<const char*> given;
	void* table = nullptr;
	void build() {
		table = mem.zeros(mock_fns.file_size * (list.size() + 1));
		for (u32 i = 0; i < list.size(); i++) {
			given.push_back(mem.copy(list[i].second.data(), list[i].second.size()));
			mock_fns.put_file(table, i, mem.text(list[i].first), given[i], list[i].second.size());
		}
	}
	void check_untouched() {
		for (u32 i = 0; i < list.size(); i++)
			if (memcmp(given[i], list[i].second.data(), list[i].second.size()))
				R->violation("changed", "content of %s was changed", list[i].first.c_str());
	}
};

/* ---- stand-in files behave as files ---- */
static void file_history() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	generate(m, (Arch)obs_arch, GenOpts());
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	u32 n = ch.weighted({1, 3, 3, 2, 2, 1});
	u32 longer = ch.skewed(250);
	Files sets[2];
	static const u32 sizes[] = {0, 1, 2, 5, 17, 64, 300, 4097};
	for (auto& f : sets) {
		for (u32 i = 0; i < n; i++) {
			/* some differ in the end alone */
			str name = sfmt("/sys/devices/system/cpu/cpu%u/", i / 2) + str(longer, 'x') + (i % 2 ? "y" : "y2");
			if (&f == &sets[1] && ch.chance(1, 3))
				name += "x";
			str text;
			u32 size = sizes[ch.choose(8)];
			for (u32 k = 0; k < size; k++)
				text += (char)((k * 7 + i * 31 + (&f == &sets[1]) * 3) & 0xff);
			f.list.push_back({name, text});
		}
		f.build();
	}
	R->nontrivial = n > 0;
	R->probe("history_of_files");
	process_restart();
	arm_limits();
	struct Model {
		u32 file = 0;
		size_t at = 0;
	};
	std::map<int, Model> model; /* by descriptor */
	std::vector<int> seen; /* descriptors so far */
	Files* cur = nullptr;
	u32 steps = 4 + ch.choose(40);
	auto is_open = [&](u32 file) {
		for (auto& f : model)
			if (f.second.file == file)
				return true;
		return false;
	};
	run_one([&] {
		for (u32 s = 0; s < steps && !R->fail.set; s++) {
			u32 what = cur ? ch.weighted({4, 6, 3, 1}) : 3;
			if (what == 3) {
				if (cur)
					R->probe("files_replaced");
				cur = &sets[ch.choose(2)];
				R->ev("new files, set %d", (int)(cur - sets));
				mock_fns.filesystem(cur->table);
				model.clear();
				continue;
			}
			if (what == 0) {
				u32 i = ch.choose(n + 1);
				str path = i < n ? cur->list[i].first : "/sys/devices/system/cpu/none";
				if (i < n && ch.chance(1, 10)) {
					/* nearly the name of a file */
					if (ch.chance(1, 2))
						path += "3";
					else
						path.pop_back();
					i = n;
					for (u32 k = 0; k < n; k++)
						if (cur->list[k].first == path)
							i = k;
				}
				int flags = ch.chance(1, 8) ? (ch.chance(1, 2) ? O_WRONLY : O_RDWR) : O_RDONLY;
				Exact mem;
				errno = 0;
				int fd = mock_fns.open(mem.text(path), flags);
				int e = errno;
				R->ev("open %s, flags %d -> %d (%d)", path.c_str(), flags, fd, e);
				int want = i >= n ? ENOENT : flags != O_RDONLY ? EACCES : is_open(i) ? ENFILE : 0;
				if (want ? fd != -1 : fd < 0)
					R->violation("open", "open of %s gives %d, should %s", path.c_str(), fd, want ? "fail" : "work");
				else if (want && e != want)
					R->violation("open", "open of %s fails with error %d, not %d", path.c_str(), e, want);
				if (want)
					continue;
				if (model.count(fd)) {
					R->violation("open", "open of %s gives descriptor %d, which another file has", path.c_str(), fd);
					continue;
				}
				model[fd].file = i;
				seen.push_back(fd);
				continue;
			}
			int fd = !seen.empty() && !ch.chance(1, 10) ? seen[ch.choose((u32)seen.size())] : ch.chance(1, 2) ? -1 : (int)ch.choose(n + 3);
			bool good = model.count(fd);
			errno = 0;
			if (what == 1) {
				static const u32 caps[] = {0, 1, 3, 16, 63, 64, 65, 299, 300, 301, 5000};
				u32 cap = caps[ch.choose(11)];
				std::unique_ptr<u8[]> b(new u8[cap ? cap : 1]);
				memset(b.get(), 0xa5, cap);
				ssize_t r = mock_fns.read(fd, b.get(), cap);
				int e = errno;
				R->ev("read %d, at most %u -> %d (%d)", fd, cap, (int)r, e);
				if (!good) {
					if (r != -1 || e != EBADF)
						R->violation("read", "read from descriptor %d, which is not open: %d, error %d", fd, (int)r, e);
					continue;
				}
				const str& text = cur->list[model[fd].file].second;
				Model& f = model[fd];
				size_t want = std::min((size_t)cap, text.size() - f.at);
				if (r != (ssize_t)want) {
					R->violation("read", "read of %u bytes at %zu of %zu gives %d", cap, f.at, text.size(), (int)r);
					continue;
				}
				if (memcmp(b.get(), text.data() + f.at, want))
					R->violation("read", "read of %u bytes at %zu gives other bytes than the file has", cap, f.at);
				for (size_t k = want; k < cap; k++)
					if (b[k] != 0xa5) {
						R->violation("read", "read of %u bytes wrote past the %zu bytes it delivered", cap, want);
						break;
					}
				f.at += want;
			} else {
				int r = mock_fns.close(fd);
				int e = errno;
				R->ev("close %d -> %d (%d)", fd, r, e);
				if (good ? r != 0 : r != -1 || e != EBADF)
					R->violation("close", "close of descriptor %d, %s: %d, error %d", fd, good ? "which is open" : "which is not open", r, e);
				if (good)
					model.erase(fd);
			}
		}
	});
	for (auto& f : sets)
		f.check_untouched();
	if (!E.opened.empty())
		R->violation("leaked", "%s of the system was opened though files were given", E.opened.begin()->first.c_str());
}

/* ---- without given files, the system's ---- */
static void system_files() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	generate(m, (Arch)obs_arch, GenOpts());
	place_threads(m);
	finish(m);
	noise();
	read_pattern();
	sched_configure(false);
	R->probe("files_of_the_system");
	R->nontrivial = true;
	process_restart();
	arm_limits();
	E.faults_on = true;
	if (ch.chance(1, 2))
		E.fault_at[ch.choose(6)].variant = 1 + ch.choose(9);
	std::vector<str> paths = m.paths();
	paths.push_back("/sys/devices/system/cpu/none");
	run_one([&] {
		for (u32 s = 0; s < 3 && !R->fail.set; s++) {
			const str& path = paths[ch.choose((u32)paths.size())];
			u64 failed = E.faulted_paths.size();
			str want, got;
			bool there = m.file(path, &want);
			errno = 0;
			int fd = mock_fns.open(path.c_str(), O_RDONLY);
			bool fault = E.faulted_paths.size() != failed;
			if ((fd == -1) != (fault || !there) || (fd == -1 && errno == 0)) {
				R->violation("open", "open of %s gives %d, error %d", path.c_str(), fd, errno);
				break;
			}
			if (fd == -1)
				continue;
			char b[700];
			ssize_t r;
			while ((r = mock_fns.read(fd, b, 1 + ch.choose(sizeof b))) > 0 && got.size() <= want.size())
				got.append(b, (size_t)r);
			fault = E.faulted_paths.size() != failed;
			if (fault ? want.compare(0, got.size(), got) != 0 : r < 0 || got != want)
				R->violation("read", "%s has %zu bytes, read %zu", path.c_str(), want.size(), got.size());
			if (mock_fns.close(fd) != 0 || E.fds.count(fd))
				R->violation("close", "%s is still open after it was closed", path.c_str());
		}
	});
	if (!E.misuse.empty())
		R->violation("misuse", "%s", E.misuse.c_str());
}

/* ---- stand-in for the CPUID instruction ---- */
static std::vector<std::array<u32, 6>> cpuid_dump(Machine& m, u32 cpu) {
	std::vector<std::array<u32, 6>> v;
	static const u32 starts[] = {0, 0x80000000u};
	for (u32 start : starts) {
		u32 top[4];
		m.cpuid(cpu, start, 0, top);
		for (u32 leaf = start; leaf <= top[0]; leaf++) {
			u32 subs = leaf == 4 || leaf == 7 || leaf == 0xB || leaf == 0xD || leaf == 0x8000001Du ? 8 : 1;
			for (u32 sub = 0; sub < subs; sub++) {
				u32 o[4];
				m.cpuid(cpu, leaf, sub, o);
				v.push_back({leaf, sub, o[0], o[1], o[2], o[3]});
			}
		}
	}
	return v;
}

static void* cpuid_table(Exact& mem, const std::vector<std::array<u32, 6>>& v) {
	void* t = mem.zeros(mock_fns.cpuid_size * v.size());
	for (u32 i = 0; i < v.size(); i++)
		mock_fns.put_cpuid(t, i, v[i].data());
	return t;
}

static void cpuid_history() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	generate(m, (Arch)obs_arch, GenOpts());
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	R->probe("history_of_cpuid");
	R->nontrivial = true;
	process_restart();
	arm_limits();
	Exact mem;
	std::vector<std::array<u32, 6>> dump = cpuid_dump(m, m.online_ids()[0]), none;
	for (u32 i = ch.choose(6); i > 0; i--)
		dump.erase(dump.begin() + ch.choose((u32)dump.size()));
	void *table = cpuid_table(mem, dump), *empty = cpuid_table(mem, none);
	const std::vector<std::array<u32, 6>>* cur = &none;
	run_one([&] {
		for (u32 s = 4 + ch.choose(40); s > 0 && !R->fail.set; s--) {
			if (ch.chance(1, s > 40 ? 1 : 12)) {
				bool full = ch.chance(3, 4);
				cur = full ? &dump : &none;
				mock_fns.set_cpuid(full ? table : empty, cur->size());
				R->ev("new answers, %zu", cur->size());
				continue;
			}
			auto& e = dump[ch.choose((u32)dump.size())];
			u32 leaf = ch.chance(1, 8) ? 0x40000000u : e[0], sub = ch.chance(1, 8) ? 99 : e[1];
			bool ex = leaf == 4 || ch.chance(1, 2);
			u32 regs[4] = {1, 2, 3, 4}, want[4] = {0, 0, 0, 0};
			if (ex)
				mock_fns.cpuidex(leaf, sub, regs);
			else
				mock_fns.cpuid(leaf, regs);
			R->ev("leaf %08x, %d -> %08x %08x %08x %08x", leaf, ex ? (int)sub : -1, regs[0], regs[1], regs[2], regs[3]);
			for (auto& d : *cur)
				if (d[0] == leaf && (!ex || d[1] == sub)) {
					std::copy(&d[2], &d[2] + 4, want);
					break;
				}
			if (memcmp(regs, want, sizeof want))
				R->violation("cpuid", "leaf 0x%x, %d gives 0x%x 0x%x 0x%x 0x%x, not 0x%x 0x%x 0x%x 0x%x", leaf, ex ? (int)sub : -1, regs[0], regs[1], regs[2], regs[3], want[0], want[1], want[2], want[3]);
		}
	});
}

/* ---- a whole machine given ---- */
/* What the library is given instead of the machine's own files and registers */
struct StandIns {
	bool files = true;
	Files f;
	Exact mem;
	void set() {
		Choices& ch = R->ch;
		f = Files();
		mem = Exact();
		Machine& m = *(Machine*)E.world;
		if (files) {
			std::vector<str> names = m.paths();
			for (auto& c : E.content)
				if (std::find(names.begin(), names.end(), c.first) == names.end())
					names.push_back(c.first);
			for (auto& name : names) {
				auto c = E.content.find(name);
				str text;
				if (E.absent.count(name) || E.unreadable.count(name) || E.open_fails.count(name))
					continue;
				if (c != E.content.end())
					text = c->second;
				else if (!m.file(name, &text))
					continue;
				f.list.push_back({name, text});
			}
			if (ch.chance(1, 2))
				std::reverse(f.list.begin(), f.list.end());
			f.build();
			mock_fns.filesystem(f.table);
		}
		if (mock_fns.set_cpuid) {
			std::vector<std::array<u32, 6>> v = cpuid_dump(m, m.online_ids()[0]);
			void* t = cpuid_table(mem, v);
			mock_fns.set_cpuid(t, v.size());
		}
		if (mock_fns.set_hwcap)
			mock_fns.set_hwcap((u32)m.hwcap, m.hwcap2);
		if (mock_fns.properties) {
			std::vector<std::pair<str, str>> p;
			for (auto& x : m.props)
				if (!E.dead_calls.count("property:" + x.first))
					p.push_back(x);
			/* others that say nothing of the chipset */
			static const char* const others[] = {"ro.product.model", "ro.board", "ro.arch.variant", "ro.hardware", "ro.hardware.chipname2", "ro.chipnam", "ro.mediatek.version.release", "ro"};
			for (auto k : others)
				if (ch.chance(1, 4))
					p.insert(p.begin() + ch.choose((u32)p.size() + 1), {k, ch.chance(1, 2) ? "MT6797" : "exynos8895"});
			void* t = mem.zeros(mock_fns.property_size * (p.size() + 1));
			for (u32 i = 0; i < p.size(); i++)
				mock_fns.put_property(t, i, mem.text(p[i].first), mem.text(p[i].second));
			mock_fns.properties(t);
		}
	}
	void check() {
		if (!files)
			return;
		f.check_untouched();
		/* one that is still open cannot be opened */
		u32 step = (u32)f.list.size() / 200 + 1;
		for (u32 i = R->ch.choose(step); i < f.list.size(); i += step) {
			int fd = mock_fns.open(f.list[i].first.c_str(), O_RDONLY);
			if (fd < 0)
				R->violation("left-open", "%s is open after detection", f.list[i].first.c_str());
			else
				mock_fns.close(fd);
		}
		for (auto& o : E.opened)
			R->violation("leaked", "%s of the system was opened though files were given", o.first.c_str());
	}
};

static void given_machine() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go;
	go.max_cpus = 12;
	generate(m, (Arch)obs_arch, go);
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	if (mock_fns.set_hwcap) {
		m.hwcap = ch.choose(1u << 31) | ch.choose(2) << 31;
		m.hwcap2 = obs_arch == ARCH_ARM32 ? ch.choose(32) : 0;
		if (obs_arch == ARCH_ARM32)
			m.hwcap &= 0x3ffdff;
		m.hardware.clear();
		m.has_footer = false;
		m.props.clear();
	}
	StandIns s;
	before_initialize = [&] { s.set(); };
	after_initialize = [&] { s.check(); };
	bool damaged = ch.chance(1, 2);
	if (damaged) {
		damage_files(m);
		E.content_later.clear();
		show_files();
	}
	R->probe(damaged ? "damaged_files_given" : "files_given");
	R->nontrivial = true;
	Outcome o = detect();
	if (!ended(o, "given files"))
		return;
	if (!damaged && !o.ret) {
		R->violation("refused", "initialize failed on a healthy machine");
		return;
	}
	if (!damaged && mock_fns.set_hwcap)
		check_capabilities(o.d, m, m.hwcap, m.hwcap2);
	/* the same files found on the machine */
	read_pattern();
	s.files = false;
	Outcome ref = detect();
	if (!ended(ref, "files of the machine"))
		return;
	if (o.ret != ref.ret) {
		R->violation("return-differs", "initialize returned %d with given files but %d with the same files of the machine", o.ret, ref.ret);
		return;
	}
	if (o.ret) {
		str e = diff(ref.d, o.d);
		if (!e.empty())
			R->violation("result-differs", "given files are described differently from the same files of the machine: %s", e.c_str());
	}
}

void c31() {
	Choices& ch = R->ch;
	StandIns s;
	switch (ch.weighted({3, 1, mock_fns.cpuidex ? 2u : 0u, 3, 3, mock_fns.properties ? 3u : 0u})) {
		case 0: file_history(); break;
		case 1: system_files(); break;
		case 2: cpuid_history(); break;
		case 3: given_machine(); break;
		case 4:
		case 5:
			before_initialize = [&] { s.set(); };
			after_initialize = [&] { s.check(); };
			if (mock_fns.properties && ch.chance(1, 2)) {
				R->probe("properties_given");
				chipset_sources();
			} else {
				R->probe("healthy_machine_given");
				healthy_machine();
			}
			break;
	}
	before_initialize = after_initialize = nullptr;
}
