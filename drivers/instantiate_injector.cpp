// Instantiates the injector's lookup and binding templates for analysis. Nothing here is executed.
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/Injectable.hpp>
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <Balau/Application/EnvironmentProperties.hpp>

using namespace Balau;

namespace {

struct A { virtual ~A() = default; int i = 0; BalauInject(A) };
struct D : public A { BalauInject(D) };
struct P { int operator () () const { return 1; } BalauInject(P) };
struct U { std::unique_ptr<A> operator () () const { return std::unique_ptr<A>(new A); } BalauInject(U) };
struct S { std::shared_ptr<A> operator () () const { return std::shared_ptr<A>(new A); } BalauInject(S) };
struct Del { void operator () (const A * a) const { delete a; } };

class Conf : public ApplicationConfiguration {
	public: mutable std::shared_ptr<A> shared;
	public: mutable A a;
	public: mutable int i = 0;

	public: void configure() const override {
		bind<int>("a").toValue(1); bind<int>("b").toValueProvider([] () { return 1; }); bind<int>("c").toValueProvider<P>();
		bind<int>("d").toValueProvider(std::shared_ptr<P>(new P));
		bind<const int>("a").toValue(1);
		bind<A>("a").toUnique<D>(); bind<A>("b").toUniqueProvider([] () { return std::unique_ptr<A>(new A); });
		bind<A>("c").toUniqueProvider<U>(); bind<A>("d").toUniqueProvider(std::shared_ptr<U>(new U));
		bind<A>("e").toReference(a); bind<A>("f").toThreadLocal<D>(); bind<A>("g").toThreadLocal<D, Del>(); bind<A>("h").toThreadLocal();
		bind<A>("i").toSingleton<D>(); bind<A>("j").toSingleton<D, Del>(); bind<A>("k").toSingleton(); bind<A>("l").toSingleton(shared);
		bind<A>("m").toSingleton(new A); bind<A>("n").toSingleton<Del>(new A);
		bind<A>("o").toSingletonProvider<S>(); bind<A>("p").toSingletonProvider(std::shared_ptr<S>(new S));
		bind<A>("q").toSingletonProvider(std::function<std::shared_ptr<A> ()>([] () { return std::shared_ptr<A>(new A); }));
		bind<A>("r").toEagerSingleton<D>(); bind<A>("s").toEagerSingleton<D, Del>(); bind<A>("t").toEagerSingleton();
		registerStaticSingleton<A>(&shared);
	}
};

[[maybe_unused]] void use(Injector & x, const Injector & p) {
	auto inj = Injector::create(Conf());
	auto child = p.createChild(Conf());
	auto v = Injector::validate(Conf());
	Injector::validateChild(v, Conf());
	std::shared_ptr<A> s;
	x.registerStaticSingleton<A>(&s);
	A a; int i = 1;
	p.hasBinding<int>(); p.hasBinding<const int>(); p.hasBinding<std::unique_ptr<A>>(); p.hasBinding<std::shared_ptr<A>>(); p.hasBinding<A &>();
	p.hasBinding<std::unique_ptr<const A>>(); p.hasBinding<std::shared_ptr<const A>>(); p.hasBinding<const A &>(); p.hasBinding<std::weak_ptr<A>>(); p.hasBinding<std::weak_ptr<const A>>();
	p.getValue<int>(); p.getValue<int>(3); p.getValue<int>(i); p.getValue<int>("a", 3); p.getValue<int>("a", i);
	p.getValue<const int>(); p.getValue<const int>("a");
	p.getUnique<A>(); p.getUnique<A>("a"); p.getUnique<const A>(); p.getUniqueOrNull<A>();

	p.getReference<A>(); p.getReference<const A>(); p.getReference<A>("a"); p.getReference<A>(a); p.getReference<A>("a", a);
	p.getShared<A>(); p.getShared<const A>(); p.getShared<A>("a"); p.getShared<A>(s); p.getShared<A>("a", s); p.getSharedOrNull<A>(); p.getSharedOrNull<A>("a");
	p.getShared<A>(std::function<std::shared_ptr<A> ()>()); p.getShared<A>("a", std::function<std::shared_ptr<A> ()>());
	p.getInstance<int>(); p.getInstance<const int>(); p.getInstance<A &>(); p.getInstance<const A &>();
	p.getInstance<std::unique_ptr<A>>(); p.getInstance<std::unique_ptr<const A>>(); p.getInstance<std::shared_ptr<A>>(); p.getInstance<std::shared_ptr<const A>>();
	p.getInstance<std::weak_ptr<A>>(); p.getInstance<std::weak_ptr<const A>>(); p.getInstance<std::unique_ptr<A, Del>>();
	p.iterate<A>(std::function<void (std::shared_ptr<A>)>()); p.iterate<A>(std::function<void (std::shared_ptr<const A>)>());
}

[[maybe_unused]] void env(EnvironmentProperties & e) {
	auto b = e.begin(), f = e.end();
	(void) (b == f); (void) (b != f); ++b;
	const auto & item = *b;
	item.getName();
	item.getValue<int>(); item.getUnique<Resource::Uri>(); item.getComposite();
	e.getValue<int>("a"); e.getValue<int>("a", 1); e.getUnique<Resource::Uri>("a"); e.getComposite("a"); e.hasValue<int>("a"); e.hasUnique<Resource::Uri>("a"); e.hasComposite("a");
}

} // namespace
