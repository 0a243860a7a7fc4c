"""C02: a dependency cycle is always reported, and only a real cycle is."""
import edges
import graph

ASSUMPTIONS = ['graph traversal is verified for an arbitrary graph type whose id, reference, size, visitEdges and getNodeById satisfy their '
               'contracts; visitEdges, visitNodes, size and getNodeById of Db::DependencyGraph are verified against those contracts separately',
               'std::stack and std::vector<Mark> behave as specified; allocation does not fail',
               'every valid reference is the id of a node of the graph (C17)']


def run(S):
    graph.run(S)
    edges.run(S)
