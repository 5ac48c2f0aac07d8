// Native replays with threads: the same containers as in the symbolic executor.
#include <chrono>
#include <list>
#include <map>
#include <thread>
#include <unordered_map>
namespace std {
#include "cxx_containers.inc"
}
