#include "hosts.h"
#include "props.h"

#include <algorithm>

/* C16: the log functions themselves, and everything detection prints. */

/* what surrounds the text of a message */
struct Form {
	str prefix, end;
};

struct Msg {
	const LogFn* fn;
	int kind, num;
	str text, expect; /* without prefix */
};

static str render(int kind, int num, const str& text) {
	std::vector<char> b(text.size() * 2 + (size_t)std::max(num, 0) + 64);
	switch (kind) {
		case 0: snprintf(b.data(), b.size(), "%s", text.c_str()); break;
		case 1: snprintf(b.data(), b.size(), "%s %d", text.c_str(), num); break;
		case 2: snprintf(b.data(), b.size(), "%.*s|%08x", num, text.c_str(), (unsigned)num); break;
		case 3: snprintf(b.data(), b.size(), "%*d", num, 7); break;
		case 4: snprintf(b.data(), b.size(), "%s", text.c_str()); break;
		case 5: snprintf(b.data(), b.size(), "%s%s", text.c_str(), text.c_str()); break;
	}
	return b.data();
}

/* descriptor or, on Android, priority */
static int stream(const LogFn* f) {
	if (obs_os != OS_ANDROID)
		return f->fd;
	static const char* const names[] = {"_debug", "_info", "_warning", "_error", "_fatal"};
	for (int i = 0; i < 5; i++)
		if (strstr(f->name, names[i]))
			return ANDROID_STREAM + 3 + i;
	return -1;
}

/* writes of one call must deliver exactly `want`, each attempt carrying all that is left */
static void check_call(const Msg& m, const Form& form, const std::vector<WriteRec>& w, u32 alloc_faults) {
	str want = form.prefix + m.expect + form.end;
	if (!m.fn->enabled) {
		if (!w.empty())
			R->violation("not-silent", "%s is below the configured level but wrote '%.80s'", m.fn->name, w[0].attempt.c_str());
		return;
	}
	size_t pos = 0;
	bool faulted = false;
	for (auto& r : w) {
		if (r.fd != stream(m.fn))
			R->violation("stream", "%s wrote to descriptor %d instead of %d", m.fn->name, r.fd, stream(m.fn));
		if (pos >= want.size() && &r != &w[0]) {
			R->violation("repeated", "%s wrote again after the whole message was out", m.fn->name);
			return;
		}
		if (r.attempt != want.substr(pos)) {
			size_t k = 0;
			str left = want.substr(pos);
			while (k < left.size() && k < r.attempt.size() && left[k] == r.attempt[k])
				k++;
			R->violation("garbled", "%s: message of %zu characters written as %zu characters, first difference at %zu", m.fn->name, left.size(), r.attempt.size(), k);
			return;
		}
		pos += r.data.size();
		faulted |= r.faulted;
	}
	if (pos < want.size() && !faulted && !(alloc_faults && w.empty()))
		R->violation("lost", "%s: %zu of %zu characters were never written", m.fn->name, want.size() - pos, want.size());
}

static const char* severity(const str& name) {
	if (name.find("_fatal") != str::npos)
		return "Fatal error";
	if (name.find("_error") != str::npos)
		return "Error";
	if (name.find("_warning") != str::npos)
		return "Warning";
	if (name.find("_info") != str::npos)
		return "Note";
	return "Debug";
}

static void detection_output() {
	Choices& ch = R->ch;
	Host m;
	E.world = &m;
	if (obs_os == OS_WINDOWS)
		generate_host(m);
	else {
		GenOpts go;
		go.max_cpus = 8;
		generate(m, (Arch)obs_arch, go);
	}
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	if (obs_os == OS_WINDOWS) {
		if (ch.chance(4, 5)) {
			E.fault_at[ch.choose(40)].variant = 1 + ch.choose(40);
			E.faults_on = true;
		}
	} else if (ch.chance(4, 5))
		damage_files(m);
	show_files();
	process_restart();
	arm_limits();
	R->inits++;
	run_one([&] { lib_initialize(); });
	if (R->fail.set)
		return;
	static const char* const start[] = {"Debug (cpuinfo): ", "Note (cpuinfo): ", "Warning in cpuinfo: ", "Error in cpuinfo: "};
	for (auto& w : E.writes) {
		bool ok = false;
		for (int k = 0; k < 4; k++)
			if (w.attempt.compare(0, strlen(start[k]), start[k]) == 0 && w.fd == (k < 2 ? 1 : 2))
				ok = true;
		/* Android has streams of its own for each severity, and puts in the ends of lines */
		if (obs_os == OS_ANDROID)
			ok = true;
		if (!ok || w.attempt.empty() || (obs_os != OS_ANDROID && w.attempt.back() != '\n'))
			R->violation("fragment", "detection wrote something that is not one whole diagnostic: '%.100s'", w.attempt.c_str());
	}
	R->nontrivial = !E.writes.empty();
	if (R->nontrivial)
		R->probe("detection_printed");
}

void c16() {
	Choices& ch = R->ch;
	if (!log_fns_debug)
		return;
	if (ch.chance(1, 5)) {
		detection_output();
		return;
	}
	Machine m;
	E.world = &m;
	noise();
	sched_cpus = {0, 1};
	process_restart();
	arm_limits();
	const LogFn* tables[] = {log_fns_debug, log_fns_error, log_fns_none};
	const LogFn* tab = tables[ch.weighted({8, 1, 1})];
	u32 nfn = 0;
	while (tab[nfn].name)
		nfn++;
	/* prefixes, from a short message with nothing going wrong */
	sched_configure(false);
	std::map<const LogFn*, Form> form;
	u32 use = 1 + ch.choose(4);
	std::vector<const LogFn*> fns;
	for (u32 i = 0; i < use; i++) {
		const LogFn* f = &tab[ch.choose(nfn)];
		fns.push_back(f);
		if (form.count(f))
			continue;
		size_t at = E.writes.size();
		ThreadResult r = run_one([&] { f->call("X", 0, 0); });
		if (R->fail.set)
			return;
		if (f->fatal ? !r.aborted : !r.done) {
			R->violation("termination", "%s %s the process", f->name, f->fatal ? "did not terminate" : "terminated");
			return;
		}
		if (!f->enabled) {
			form[f] = Form();
			if (E.writes.size() != at)
				R->violation("not-silent", "%s is below the configured level but wrote something", f->name);
			continue;
		}
		if (E.writes.size() != at + 1) {
			R->violation("count", "%s made %zu writes for one short message", f->name, E.writes.size() - at);
			return;
		}
		str t = E.writes[at].data;
		size_t x = t.rfind('X');
		Form g;
		bool ok = x != str::npos && E.writes[at].fd == stream(f);
		if (ok) {
			g.prefix = t.substr(0, x);
			g.end = t.substr(x + 1);
			if (obs_os == OS_ANDROID)
				ok = g.end.empty() || g.end == "\n";
			else
				ok = (g.end == "\n" || (g.end == "\r\n" && obs_os == OS_WINDOWS)) && t.compare(0, strlen(severity(f->name)), severity(f->name)) == 0;
		}
		if (!ok) {
			R->violation("garbled", "%s wrote '%.60s' to descriptor %d for the message 'X'", f->name, t.c_str(), E.writes[at].fd);
			return;
		}
		form[f] = g;
		R->shape = R->shape * 31 + fnv(f->name, strlen(f->name));
	}
	size_t live = E.heap.size();
	if (live)
		R->violation("leak", "logging a short message left %zu allocations", live);
	/* messages */
	u32 n = 1 + ch.choose(4);
	std::vector<std::vector<Msg>> plan(n);
	u32 total = 0;
	for (auto& v : plan) {
		u32 k = 1 + ch.choose(4);
		for (u32 i = 0; i < k; i++) {
			Msg g;
			g.fn = fns[ch.choose((u32)fns.size())];
			u32 p = (u32)form[g.fn].prefix.size();
			u32 len = 0;
			switch (ch.weighted({2, 4, 3, 2, 1})) {
				case 0: len = ch.choose(80); break;
				case 1: { /* around a power of two, with and without prefix and newline */
					u32 edge = 256u << ch.weighted({1, 1, 6, 1, 1});
					u32 d = ch.choose(8);
					len = edge + d - 5;
					if (!ch.chance(1, 4))
						len = len > p ? len - p : 0;
					break;
				}
				case 2: len = 900 + ch.choose(300); break;
				case 3: len = 1000 + ch.choose(6000); break;
				case 4: len = 20000 + ch.choose(100000); break;
			}
			g.kind = (int)ch.choose(6);
			g.num = 0;
			if (g.kind == 5)
				len /= 2;
			if (g.kind == 1)
				g.num = (int)ch.choose(100000), len -= len > 6 ? 6 : 0;
			if (g.kind == 3)
				g.num = (int)len;
			u32 salt = ch.choose(26);
			if (g.kind != 3)
				for (u32 c = 0; c < len; c++)
					g.text += (char)('a' + (c * 7 + c / 26 + salt) % 26);
			if (g.kind == 2) {
				g.num = (int)len;
				g.text += "tail";
			}
			if (g.kind == 4 && ch.chance(1, 3) && !g.text.empty())
				g.text[g.text.size() / 2] = '\n';
			g.expect = render(g.kind, g.num, g.text);
			v.push_back(g);
			total++;
		}
	}
	u32 nf = ch.weighted({3, 3, 2, 1});
	E.fault_at.clear();
	u64 base = E.ops;
	for (u32 i = 0; i < nf; i++) {
		Fault f;
		f.variant = 1 + ch.choose(40);
		E.fault_at[base + ch.choose(total * 2 + 1)] = f;
	}
	sched_configure(true);
	E.faults_on = true;
	std::vector<std::function<void()>> th;
	std::vector<const Msg*> fatal(n);
	std::vector<size_t> mark(n);
	std::vector<u32> fatal_allocs(n);
	auto of = [&](int id, size_t from) {
		std::vector<WriteRec> w;
		for (size_t i = from; i < E.writes.size(); i++)
			if (E.writes[i].thread == id)
				w.push_back(E.writes[i]);
		return w;
	};
	for (u32 t = 0; t < n; t++)
		th.push_back([&, t] {
			for (auto& g : plan[t]) {
				size_t at = E.writes.size();
				u32 af = T->alloc_faults;
				fatal[t] = g.fn->fatal ? &g : nullptr;
				mark[t] = at;
				fatal_allocs[t] = af;
				R->ev("%s, %zu characters, form %d", g.fn->name, g.expect.size(), g.kind);
				g.fn->call(g.text.c_str(), g.kind, g.num);
				if (g.fn->fatal) {
					R->violation("termination", "%s did not terminate the process", g.fn->name);
					return;
				}
				check_call(g, form[g.fn], of((int)t, at), T->alloc_faults - af);
				if (R->fail.set)
					return;
			}
		});
	u64 failed_allocs = E.alloc_faults;
	auto res = run_threads(th);
	for (u32 t = 0; t < n && !R->fail.set; t++) {
		if (res[t].aborted) {
			if (!fatal[t])
				R->violation("termination", "a message that is not fatal terminated the process");
			else
				check_call(*fatal[t], form[fatal[t]->fn], of((int)t, mark[t]), (u32)(E.alloc_faults - failed_allocs));
		}
	}
	if (!E.heap.empty())
		R->violation("leak", "logging left %zu allocations of %zu bytes", E.heap.size(), live_bytes());
	R->nontrivial = true;
	R->sample = sfmt("%u threads, %u messages", n, total);
}
