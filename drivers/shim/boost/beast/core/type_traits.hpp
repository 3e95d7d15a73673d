// Boost.Beast removed this header; the network sources still include it. It only has to be parseable.
#pragma once
#include <boost/beast/core/buffer_traits.hpp>
#include <boost/beast/core/stream_traits.hpp>
