// What a process learns about its system: platform names, machine, effective user. The system's answers are generated by stand-ins.
// SCALE: 4
#include "pbt.hpp"
#include <pwd.h>
#include <sys/utsname.h>
#include <unistd.h>
#include <dlfcn.h>
// Stand-ins: what the operating system answers. Off until a check turns them on.
static bool faked = false; static std::string machine; static bool uname_fails = false; static uid_t real_id = 0, effective_id = 0; static std::string user_name; static int user_state = 0; static uid_t asked = 0; static struct passwd entry;
extern "C" int uname(struct utsname* u) noexcept
{
	if (!faked) { memset(u, 0, sizeof(*u)); strcpy(u->machine, "x86_64"); return 0; }
	if (uname_fails) { errno = EFAULT; return -1; }
	memset(u, 0x5a, sizeof(*u)); strcpy(u->sysname, "arm"); strcpy(u->nodename, "i386"); strcpy(u->release, "aarch64"); strcpy(u->version, "arm"); strncpy(u->machine, machine.c_str(), sizeof(u->machine) - 1); u->machine[sizeof(u->machine) - 1] = 0; return 0;
}
extern "C" uid_t geteuid() noexcept { return faked ? effective_id : 0; }
extern "C" uid_t getuid() noexcept { return faked ? real_id : 0; }
extern "C" struct passwd* getpwuid(uid_t id)
{
	asked = id; if (!faked || user_state == 0 || id != effective_id) { errno = ENOENT; return nullptr; }
	entry = {}; entry.pw_uid = id; entry.pw_name = user_state == 1 ? nullptr : user_name.data(); entry.pw_dir = const_cast<char*>("/home"); entry.pw_gecos = const_cast<char*>("gecos"); return &entry;
}
#include <stdex/sys_info.hpp>
using namespace pbt;
using P = stdex::platform_id;

static const std::pair<const char*, P> names[] = { { "aarch64", P::aarch64 }, { "arm", P::arm }, { "i386", P::i386 }, { "x86_64", P::x86_64 } };
static std::string lower(std::string t) { for (auto& c : t) if (c >= 'A' && c <= 'Z') c += 'a' - 'A'; return t; }
static P expected(const std::string& t) { for (auto& n : names) if (lower(t) == n.first) return n.second; return P::unknown; }
static std::string name(Src& s)
{
	std::string t = s.pick({ "aarch64", "arm", "i386", "x86_64", "i486", "i586", "i686", "amd64", "armv7l", "arm64", "x86", "aarch64_be", "riscv64", "ppc64le", "x86-64", "arme", "" });
	if (s.boolean()) for (auto& c : t) if (s.boolean() && c >= 'a' && c <= 'z') c -= 'a' - 'A';
	if (s.chance(1, 4)) switch (s.draw(5)) {
	case 0: t.insert(s.draw(t.size()), 1, static_cast<char>(s.range(1, 255))); break;
	case 1: if (!t.empty()) t.erase(s.draw(t.size() - 1), 1); break;
	case 2: if (!t.empty()) t[s.draw(t.size() - 1)] = static_cast<char>(s.range(1, 255)); break;
	case 3: t += t; break;
	case 4: if (!t.empty()) t[s.draw(t.size() - 1)] ^= 0x20; break;
	default: t = s.bytes(12); 
	}
	t = t.c_str(); return t;
}
PBT_CHECK(names_of_platforms, 100000, 800000)
{
	std::string t = name(s); exact<char> z(std::string(t.c_str(), t.size() + 1)); P got = stdex::platform_from_name(z.get());
	PBT_REQUIRE(got == expected(t), "platform of " + show(t) + " is " + show(static_cast<unsigned>(got)) + ", expected " + show(static_cast<unsigned>(expected(t))));
	s.label_if(expected(t) != P::unknown, "known"); s.nontrivial(t.size() > 1); s.note([&] { return show(t); });
}
PBT_CHECK(identity, 40000, 400000)
{
	struct on { on() { faked = true; } ~on() { faked = false; } } o;
	machine = name(s); if (machine.size() > 64) machine.resize(64); uname_fails = s.chance(1, 8);
	auto id = [&]() -> uid_t { return s.boolean() ? static_cast<uid_t>(s.draw(2)) : s.integer<uint32_t>(); };
	effective_id = id(); real_id = s.boolean() ? effective_id : id(); user_state = s.weighted({ 1, 1, 6 }); user_name = s.bytes(40); user_name = user_name.c_str();
	auto i = std::make_unique<stdex::sys_info_t>();
	P want = uname_fails ? P::unknown : expected(machine);
	PBT_REQUIRE(i->os_platform == want, "machine " + show(machine) + ": platform " + show(static_cast<unsigned>(i->os_platform)));
	PBT_REQUIRE(i->elevated == (effective_id == 0), "effective user " + show(effective_id) + ", real user " + show(real_id) + ": elevated is " + show(i->elevated));
	std::string user = user_state == 2 ? user_name : "";
	user_name.assign(user_name.size(), '#'); // The system's storage is reused by the next question.
	PBT_REQUIRE(i->username == user, "user name is " + show(i->username) + ", expected " + show(user));
	static_assert(stdex::sys_info_t::process_platform == P::x86_64);
	s.label_if(effective_id != real_id, "effective user is not the real one"); s.label_if(user_state < 2, "nameless user"); s.label_if(uname_fails, "system gives no answer");
	s.nontrivial(effective_id != real_id || want != P::unknown); s.note([&] { return show(machine) + " uid " + show(real_id) + "/" + show(effective_id) + " " + show(user); });
}
PBT_MAIN("R02", "a name of two or more characters; an effective user different from the real one or a machine that is known")
