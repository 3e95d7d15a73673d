// Instantiates every member of the container and token class templates for analysis. Nothing here is executed.
#include <Balau/Container/DependencyGraph.hpp>
#include <Balau/Container/ObjectTrie.hpp>
#include <Balau/Lang/Common/ScannedTokens.hpp>
#include <Balau/Lang/Property/Lang/PropertyToken.hpp>
#include <Balau/Type/MovableOnScopeExit.hpp>
#include <Balau/Util/Memory.hpp>
#include <Balau/Util/Containers.hpp>
#include <Balau/Util/Strings.hpp>
#include <Balau/Type/UUID.hpp>

using Balau::Lang::Property::PropertyToken;

template class Balau::Container::ObjectTrieNode<std::string>;
template class Balau::Container::ObjectTrie<std::string>;
template class Balau::Container::DependencyGraph<std::string>;
template class Balau::Lang::ScannedTokens<PropertyToken>;
template class Balau::Lang::RandomAccessScannedTokens<PropertyToken>;
template class Balau::Lang::ScannerApiScannedTokens<PropertyToken>;
template class Balau::Lang::IterativeScannedTokens<PropertyToken>;

namespace {

using Trie = Balau::Container::ObjectTrie<std::string>;

[[maybe_unused]] void tries(Trie & t, const Trie & ct, const std::vector<std::string> & v) {
	auto cmp = [] (const std::string & a, const std::string & b) { return a == b; };
	auto rep = [] (std::string & a, const std::string & b) { a = b; };
	auto create = [] (const std::string & a) { return a; };
	auto id = [] (const std::string & a) { return a; };
	std::string s;
	Trie a(t);
	Trie b(std::move(t));
	a = b;
	a = std::move(b);
	t.addOrReplace(s, cmp); t.addOrReplace(std::string(), cmp);
	t.addOrReplace(s, cmp, rep); t.addOrReplace(std::string(), cmp, rep);
	t.addOrReplaceAndReturnChild(s, cmp); t.addOrReplaceAndReturnChild(std::string(), cmp);
	t.addOrReplaceAndReturnChild(s, cmp, rep); t.addOrReplaceAndReturnChild(std::string(), cmp, rep);
	t.find(v); ct.find(v); t.find(v, cmp); ct.find(v, cmp);
	t.findOrAdd(v); t.findOrAdd(v, cmp); t.findOrAdd(v, cmp, create);
	t.findNearest(v); ct.findNearest(v); t.findNearest(v, cmp); ct.findNearest(v, cmp);
	t.findNearestLeaf(v); ct.findNearestLeaf(v); t.findNearestLeaf(v, cmp); ct.findNearestLeaf(v, cmp);
	t.cascade(ct, id);
	t.cascade(std::move(a), id);
}

template <typename IterT> void iterate(IterT a, IterT b) {
	IterT c(a);
	++a; a = b;
	(void) *a; (void) (a == b); (void) (a != b);
}

[[maybe_unused]] void tries2(Trie & t, const Trie & ct) {
	iterate(t.depthBegin(), t.depthEnd());
	iterate(ct.depthBegin(), ct.depthEnd());
	iterate(t.breadthBegin(), t.breadthEnd());
	iterate(ct.breadthBegin(), ct.breadthEnd());
	t.begin().getAncestors(); ct.begin().getAncestors(); t.begin().getAncestor(1); ct.begin().getAncestor(1);
	(void) t.begin()->value; (void) ct.begin()->value; (void) t.breadthBegin()->value; (void) ct.breadthBegin()->value;
}

[[maybe_unused]] void scope() {
	Balau::MovableOnScopeExit a([] () {});
	Balau::MovableOnScopeExit b(std::move(a));
	b.clear(); b.executeNow();
}

[[maybe_unused]] void strings(std::string & s, std::string_view v, const std::vector<std::string> & vs, const std::u32string & u) {
	using Balau::Util::Strings;
	Strings::startsWith(s, 'a'); Strings::contains(s, "a"); Strings::occurrences(s, "a"); Strings::occurrences(s, std::regex("a"));
	Strings::replaceAll(s, "a", "b"); Strings::replaceAll(s, s, s); Strings::replaceAll(s, std::regex("a"), "b");
	Strings::join(",", "a", "b"); Strings::joinContainer(",", vs); Strings::joinContainer(s, vs); Strings::joinContainer(v, vs);
	Strings::prefixSuffixJoin("a", "b", s, s);
	Strings::split(s, ","); Strings::split(v, std::regex(","), true); Strings::splitAndTrim(s, ",");
	Strings::trim(s); Strings::trimLeft(s); Strings::trimRight(s); Strings::padLeft(s, 3); Strings::padRight(s, 3); Strings::padLeft(s, 3, U'a'); Strings::padRight(s, 3, U'a');
	Strings::toUpper(s); Strings::toLower(s); Strings::codePointCount(s); Strings::lastIndexOf(s, "a"); Strings::contains(v, v); Strings::endsWith(s, "a"); Strings::equalsIgnoreCase(s, s);
	Balau::Util::Containers::contains(vs, s);
	Balau::UUID uuid; uuid.asString(); toString(uuid);
}

} // namespace
