#include "graph.hpp"
int main()
{
	vh::init("all graphs with up to 3 nodes (repeated and missing targets), all simple graphs with 4 nodes, random graphs up to 60 nodes, each from every start, plus the same through Db::DependencyGraph; non-trivial: at least one node");
	return run(2);
}
