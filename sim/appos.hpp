// The operating system as the program sees it: files, folders, console, clock, process end. In memory, seeded, one process.
#pragma once
#include "rt.hpp"
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace os
{
	using u64 = std::uint64_t;

	struct File { std::string data; long long version = 0; };

	// absolute indices; -1: never
	struct Faults
	{
		long long crashOp = -1; bool torn = false;            // the process is killed at this operation; torn: in the middle of a write
		long long openErr = -1; int openErrno = 13;            // this opening for writing fails
		bool openForever = false;
		long long writeErr = -1; bool writeForever = false; int writeErrno = 5;
		long long closeErr = -1;
		long long renameErr = -1; int renameErrno = 13;        // this renaming fails
		long long disk = -1;                                   // bytes until the disk is full
		bool shortWrites = false;                              // every write arrives in two pieces
		int mkdirMode = 0;                                     // 0 works, 1 refused (status 256), 2 can not be started (-1)
		long long mem = -1;                                    // this allocation fails
		long long conErr = -1;                                 // console broken from this console operation on
		long long readErr = -1;                                // reading the input fails at this byte
		bool shortReads = false;
		bool noInput = false;
		std::vector<std::pair<long long, long long>> clock;    // at this operation the clock jumps by so many seconds
		std::vector<std::pair<std::string, std::string>> left; // files already there
		long long maxSteps = 100000, maxOps = 200000;
		bool stopAtOutput = false;                             // end the run when the first result file is opened
	};

	struct Announce { long long number; std::string time, line; long long iteration, count; bool exists; std::string content; long long version; bool open; };

	struct Result
	{
		std::string how;     // return | exception | crash | runaway | output | assert | fatal | none
		std::string what;
		int ret = 0;
		std::string console;
		std::map<std::string, std::string> files;
		std::map<std::string, long long> versions;
		std::vector<Announce> ann;
		std::vector<std::string> opened;    // result files opened for writing, in order
		u64 ops = 0, opens = 0, writes = 0, closes = 0, renames = 0, conOps = 0, clocks = 0, bytes = 0, allocs = 0, steps = 0;
		u64 oplog = 0;                      // hash of the operations
		u64 ileave = 0, accesses = 0, switches = 0, regions = 0, parRegions = 0, maxTeam = 0;
		std::map<std::string, long long> fired;
		std::vector<std::string> races;
		std::string err;                    // text the process wrote to its error stream; signal
		int sig = 0;
	};
}
