/* Run a function in a child process while watching, killing or failing it at its file-related system calls. */
#ifndef TRACER_H
#define TRACER_H

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace tracer {

struct Call
{
	long number;
	std::string name;
	/** path given (for calls which take one) or path behind the descriptor */
	std::string path;
	/** second path, for rename and link */
	std::string path2;
	/** true if this call can lose or refuse data */
	bool writes;
	uint64_t count;
};

enum class Action
{
	NONE,
	/** kill the child just before the call */
	KILL_BEFORE,
	/** kill the child just after the call */
	KILL_AFTER,
	/** make the call fail */
	FAIL,
	/** make this and all later calls that store data fail */
	FAIL_FROM,
	/** make a write store only part of what it was given */
	SHORT,
	/** make a write store only part of what it was given and all later calls that store data fail, as a full disc does */
	FILL
};

struct Plan
{
	Action action = Action::NONE;
	/** index of the call (in the order of their appearance inside the directory) to act on */
	size_t at = 0;
	int error = 0;
};

struct Outcome
{
	/** function returned */
	bool returned = false;
	bool threw = false;
	bool std_exception = false;
	std::string what;
	/** child was killed as planned */
	bool killed = false;
	/** child died in another way */
	bool crashed = false;
	int signal = 0;
	std::vector<Call> calls;
	/** the planned action was carried out */
	bool acted = false;
};

/** @param dir only calls which touch something inside this directory count.
 *  @param observer called (in the parent) before and after every such call, while the child is stopped.
 */
Outcome run(std::string const& dir, std::function<void ()> fn, Plan plan = Plan(), std::function<void (Call const&, bool before)> observer = {});

/** true if this machine lets us trace a child */
bool available();

}

#endif
