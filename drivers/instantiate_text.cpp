// Instantiates the renderings of the enumerations that take an allocator. Nothing in this file is judged.
#include <Balau/Application/Impl/BindingKey.hpp>
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Lang/Property/Lang/PropertyToken.hpp>
#include <Balau/Logging/LoggingLevel.hpp>
#include <Balau/Testing/ExecutionModel.hpp>

namespace {

using A = std::allocator<char>;

[[maybe_unused]] void renderings() {
	Balau::toString<A>(Balau::LoggingLevel::NONE);
	Balau::Testing::toString<A>(Balau::Testing::ExecutionModel::WorkerThreads);
	Balau::Lang::Property::toString<A>(Balau::Lang::Property::PropertyToken::Hash);
	Balau::Impl::toString<A>(Balau::Impl::BindingMetaType::Value);
}

} // namespace
