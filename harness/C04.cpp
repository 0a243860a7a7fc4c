// C04: a compile step starts only after everything it needs has succeeded
// flags: -fsanitize=thread -g
#include "build.hpp"
int main() { return bld::main(false, "random dependency graphs of up to 24 files, 1 to 4 workers, random step durations, whole builds and single targets, forced and not; under ThreadSanitizer; non-trivial: all"); }
