// C05: a failing compile step fails the build, blocks its dependents, and ends it
// flags: -fsanitize=thread -g
#include "build.hpp"
int main() { return bld::main(true, "random dependency graphs of up to 24 files in which steps exit with a code, are killed by a signal, throw, or cannot be decided; 1 to 4 workers, random durations; under ThreadSanitizer; non-trivial: all"); }
