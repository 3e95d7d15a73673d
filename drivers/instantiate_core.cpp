// Instantiates the library's templates so that their bodies can be analysed. Nothing here is executed.
#include <Balau/Logging/Logger.hpp>
#include <Balau/Network/Utilities/BalauLogger.hpp>
#include <Balau/Type/FromString.hpp>
#include <Balau/Network/Utilities/UrlDecode.hpp>
#include <Balau/Concurrent/CyclicBarrier.hpp>
#include <Balau/Concurrent/Fork.hpp>
#include <Balau/Concurrent/LazyValue.hpp>
#include <Balau/Concurrent/Semaphore.hpp>
#include <Balau/Concurrent/SingleTimeExecutor.hpp>
#include <Balau/Concurrent/ThreadLocalInstance.hpp>
#include <Balau/Container/ArrayBlockingQueue.hpp>
#include <Balau/Container/SynchronizedQueue.hpp>
#include <Balau/Container/DependencyGraph.hpp>
#include <Balau/Container/ObjectTrie.hpp>
#include <Balau/Interprocess/MSharedMemoryObject.hpp>
#include <Balau/Interprocess/USharedMemoryObject.hpp>
#include <Balau/Type/MovableOnScopeExit.hpp>
#include <Balau/Type/OnScopeExit.hpp>
#include <Balau/Util/Memory.hpp>
#include <Balau/Util/Vectors.hpp>

template class Balau::Container::ArrayBlockingQueue<int>;
template class Balau::Container::ArrayBlockingQueue<std::string>;
template class Balau::Container::SynchronizedQueue<int>;
template class Balau::Concurrent::LazyValue<int>;
template class Balau::Interprocess::MSharedMemoryObject<int>;
template class Balau::Interprocess::USharedMemoryObject<int>;

namespace {

using Trie = Balau::Container::ObjectTrie<std::string>;
using Node = Balau::Container::ObjectTrieNode<std::string>;
using Graph = Balau::Container::DependencyGraph<std::string>;

[[maybe_unused]] void graph(Graph & g, const Graph & cg, std::vector<std::pair<std::string, std::string>> & edges) {
	g.addDependency("a"); g.addRelationship("a", "b"); g.removeRelationship("a", "b"); g.removeDependency("a");
	g.hasCycles(); cg.hasCycles(edges);
}

template <typename IterT> void iterate(IterT a, IterT b) {
	++a; a = b;
	(void) *a; (void) a->value; (void) (a == b); (void) (a != b); (void) a.getAncestor(1);
}

[[maybe_unused]] void trie(Trie & t, const Trie & ct, Node & n, const Node & cn) {
	auto cmp = [] (const std::string & a, const std::string & b) { return a == b; };
	auto rep = [] (const std::string & a, const std::string & b) { return a == b; };
	std::string s;
	std::vector<std::string> v;
	n.add(s); n.add(std::string());
	n.addOrReplace(s); n.addOrReplace(std::string());
	n.addOrReplace(s, cmp); n.addOrReplace(std::string(), cmp);
	n.addOrReplace(s, cmp, rep); n.addOrReplace(std::string(), cmp, rep);
	n.addAndReturnChild(s); n.addAndReturnChild(std::string());
	n.addOrReplaceAndReturnChild(s); n.addOrReplaceAndReturnChild(std::string());
	n.addOrReplaceAndReturnChild(s, cmp); n.addOrReplaceAndReturnChild(std::string(), cmp);
	n.addOrReplaceAndReturnChild(s, cmp, rep); n.addOrReplaceAndReturnChild(std::string(), cmp, rep);
	n.find(s); cn.find(s); n.find(s, cmp); cn.find(s, cmp);
	n.findOrAddChild(s); n.findOrAddChild(std::string());
	(void) n[0]; (void) cn[0]; n.count(); n.empty(); n.begin(); n.end(); cn.begin(); cn.end();
	Node m(n); m = std::move(n);
	iterate(t.begin(), t.end());
	iterate(ct.begin(), ct.end());
}

[[maybe_unused]] void others(Balau::Concurrent::ThreadLocalInstance<int> & t) {
	t(); t([] { return new int; });
}

} // namespace

namespace {

// Every logging method of the loggers with two parameters of different types.
template <typename LoggerT> void logAll(const LoggerT & logger, const Balau::SourceCodeLocation & l, Balau::LoggingLevel level) {
	const char * c = "a {} {}";
	std::string_view s = c;
	std::function<std::string ()> f = [] () { return std::string("a"); };
	const std::string p = "p";

#define VERIF_LOG(M) \
	logger.M(c); logger.M(s); logger.M(c, 1, p); logger.M(s, 1, p); logger.M(f); \
	logger.M(l, c); logger.M(l, s); logger.M(l, c, 1, p); logger.M(l, s, 1, p); logger.M(l, f);
	VERIF_LOG(trace)
	VERIF_LOG(debug)
	VERIF_LOG(info)
	VERIF_LOG(warn)
	VERIF_LOG(error)
#undef VERIF_LOG
	logger.log(level, c); logger.log(level, s); logger.log(level, c, 1, p); logger.log(level, s, 1, p); logger.log(level, f);
	logger.log(level, l, c); logger.log(level, l, s); logger.log(level, l, c, 1, p); logger.log(level, l, s, 1, p); logger.log(level, l, f);
}

template void logAll<Balau::Logger>(const Balau::Logger &, const Balau::SourceCodeLocation &, Balau::LoggingLevel);
template void logAll<Balau::BalauLogger>(const Balau::BalauLogger &, const Balau::SourceCodeLocation &, Balau::LoggingLevel);

}
