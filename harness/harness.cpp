// Assembles several programs one after the other in one process, optionally with a prescribed
// interleaving of the threads that write the outputs. Used to replay behaviours of spec/History.tla.
//
// usage: harness SCRIPT; a line of the script is one run, its fields are separated by 0x1F:
//   directory, file for the console output, "cli" or "mem:ADDRESS", schedule, arguments...
// A schedule is "-" or a list like T3,S1,E8: which thread runs next and up to how many of its steps.
// E is the thread that assembles, T and S are the first and second thread it starts.
// A step ends at each allocation of memory.
#include "Core/Assembler.h"
#include "Core/Common.h"
#include "Core/FileManager.h"
#include "Main/CommandLineInterface.h"

#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sstream>
#include <unistd.h>

// --- scheduler ------------------------------------------------------------
namespace sched
{
enum State { None, Ready, Joining, Done };
const int MaxThreads = 3;		// E, T, S
struct Segment { int who; long steps; };

pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t change = PTHREAD_COND_INITIALIZER;
Segment segments[4096];
int segmentCount, segment;
long left;
int current;
bool active = false;
State states[MaxThreads];
int joins[MaxThreads];			// thread E waits for
pthread_t ids[MaxThreads];
int threadCount;
long switches, giveUps;
thread_local int me = -1;

bool runnable(int t)
{
	return states[t] == Ready || (states[t] == Joining && states[joins[t]] == Done);
}

// choose who runs next; called with the lock
void advance()
{
	while (segment < segmentCount)
	{
		Segment& s = segments[segment++];
		if (s.who < MaxThreads && runnable(s.who))
		{
			current = s.who; left = s.steps; switches++;
			pthread_cond_broadcast(&change);
			return;
		}
	}
	// the rest: one after the other
	for (int t = 0; t < MaxThreads; t++)
	{
		if (runnable(t)) { current = t; left = 1L << 60; break; }
	}
	pthread_cond_broadcast(&change);
}

void waitForTurn()
{
	while (active && current != me)
	{
		timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		ts.tv_sec += 2;
		if (pthread_cond_timedwait(&change, &lock, &ts) != 0 && active && current != me)
		{
			// whoever has the turn is blocked by something else: let everything run freely
			active = false; giveUps++;
			pthread_cond_broadcast(&change);
		}
	}
}

void step()
{
	if (!active || me < 0) return;
	pthread_mutex_lock(&lock);
	if (active && current == me && --left <= 0)
		advance();
	waitForTurn();
	pthread_mutex_unlock(&lock);
}

void start(const std::string& text)
{
	segmentCount = segment = 0; switches = 0; threadCount = 1; left = 1; current = 0;
	for (int t = 0; t < MaxThreads; t++) states[t] = None;
	if (text == "-") return;
	std::stringstream in(text);
	std::string s;
	while (std::getline(in, s, ',') && segmentCount < 4096)
		segments[segmentCount++] = { s[0] == 'E' ? 0 : s[0] == 'T' ? 1 : 2, atol(s.c_str() + 1) };
	me = 0;
	states[0] = Ready;
	left = 1L << 60;	// until the first thread is started
	active = true;
}

void stop() { active = false; me = -1; }

struct Start { void* (*f)(void*); void* a; int id; };
void* trampoline(void* p)
{
	Start s = *(Start*) p;
	free(p);
	me = s.id;
	pthread_mutex_lock(&lock);
	waitForTurn();
	pthread_mutex_unlock(&lock);
	void* r = s.f(s.a);
	pthread_mutex_lock(&lock);
	states[me] = Done;
	if (active && current == me) advance();
	me = -1;
	pthread_mutex_unlock(&lock);
	return r;
}
}

extern "C" int pthread_create(pthread_t* id, const pthread_attr_t* attr, void* (*f)(void*), void* a)
{
	static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)) dlsym(RTLD_NEXT, "pthread_create");
	if (!sched::active || sched::me != 0 || sched::threadCount >= sched::MaxThreads)
		return real(id, attr, f, a);
	auto* s = (sched::Start*) malloc(sizeof(sched::Start));
	pthread_mutex_lock(&sched::lock);
	*s = { f, a, sched::threadCount++ };
	int t = s->id;
	int r = real(id, attr, sched::trampoline, s);
	if (r == 0)
	{
		sched::ids[t] = *id;
		sched::states[t] = sched::Ready;
		sched::advance();
		sched::waitForTurn();
	}
	pthread_mutex_unlock(&sched::lock);
	return r;
}

extern "C" int pthread_join(pthread_t id, void** result)
{
	static auto real = (int (*)(pthread_t, void**)) dlsym(RTLD_NEXT, "pthread_join");
	if (sched::active && sched::me == 0)
	{
		pthread_mutex_lock(&sched::lock);
		for (int t = 1; t < sched::threadCount; t++)
		{
			if (sched::active && pthread_equal(sched::ids[t], id) && sched::states[t] != sched::Done)
			{
				sched::states[0] = sched::Joining;
				sched::joins[0] = t;
				sched::advance();
				sched::waitForTurn();
				sched::states[0] = sched::Ready;
			}
		}
		pthread_mutex_unlock(&sched::lock);
	}
	return real(id, result);
}

static void* allocate(size_t n)
{
	sched::step();
	if (void* p = malloc(n ? n : 1)) return p;
	throw std::bad_alloc();
}
void* operator new(size_t n) { return allocate(n); }
void* operator new[](size_t n) { return allocate(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// --- output to memory -----------------------------------------------------
class MemoryFile: public AssemblerFile
{
public:
	MemoryFile(int64_t address): base(address), pos(address), name("memory") { }
	bool open(bool check) override { opened = true; onlyCheck = check; pos = base; return true; }
	void close() override { opened = false; }
	bool isOpen() override { return opened; }
	bool write(void* data, size_t length) override
	{
		if (!onlyCheck && pos >= base)
		{
			size_t end = size_t(pos - base) + length;
			if (end > (1 << 20)) return false;
			if (content.size() < end) content.resize(end, 0);
			memcpy(content.data() + (pos - base), data, length);
		}
		pos += length;
		return true;
	}
	int64_t getVirtualAddress() override { return pos; }
	int64_t getPhysicalAddress() override { return pos - base; }
	int64_t getHeaderSize() override { return base; }
	bool seekVirtual(int64_t a) override { if (a < base) { pos = a; return false; } pos = a; return true; }
	bool seekPhysical(int64_t a) override { return seekVirtual(a + base); }
	bool hasFixedVirtualAddress() override { return true; }
	const fs::path& getFileName() override { return name; }
	std::vector<char> content;
private:
	int64_t base, pos;
	bool opened = false, onlyCheck = false;
	fs::path name;
};

static int runMemory(const std::vector<std::string>& args, int64_t address)
{
	std::ifstream in(args[0], std::ios::binary);
	std::stringstream text;
	text << in.rdbuf();
	auto file = std::make_shared<MemoryFile>(address);
	std::vector<std::string> errors;
	ArmipsArguments settings;
	settings.mode = ArmipsMode::MEMORY;
	settings.memoryFile = file;
	settings.content = text.str();
	settings.errorsResult = &errors;
	for (size_t i = 1; i < args.size(); i++)
	{
		if (args[i] == "-silent") settings.silent = true;
		if (args[i] == "-erroronwarning") settings.errorOnWarning = true;
		if (args[i] == "-equ" && i + 2 < args.size()) settings.equList.push_back({Identifier(args[i + 1]), args[i + 2]});
	}
	bool result = runArmips(settings);
	std::ofstream out("memory.bin", std::ios::binary);
	if (result) out.write(file->content.data(), file->content.size());
	std::ofstream err("errors.txt");
	for (const auto& e: errors) err << e << "\n";
	return !result;
}

int main(int argc, char* argv[])
{
	std::ifstream script(argv[1]);
	std::string line;
	std::vector<std::vector<std::string>> runs;
	while (std::getline(script, line))
	{
		std::vector<std::string> f;
		std::stringstream s(line);
		std::string x;
		while (std::getline(s, x, '\x1f')) f.push_back(x);
		runs.push_back(f);
	}
	int saved = dup(1);
	for (auto& f: runs)
	{
		if (chdir(f[0].c_str()) != 0) return 3;
		int fd = open(f[1].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (fd < 0) return 3;
		dup2(fd, 1); dup2(fd, 2);
		close(fd);
		std::vector<std::string> args(f.begin() + 4, f.end());
		int rc;
		sched::start(f[3]);
		if (f[2].substr(0, 4) == "mem:")
			rc = runMemory(args, strtoll(f[2].c_str() + 4, nullptr, 0));
		else
		{
			args.insert(args.begin(), "armips");
			rc = runFromCommandLine(args);
		}
		sched::stop();
		std::cout.flush(); fflush(stdout); fflush(stderr);
		dup2(saved, 1);
		dprintf(saved, "%d %ld %ld\n", rc, sched::switches, sched::giveUps);
	}
	return 0;
}
