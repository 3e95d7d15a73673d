// @formatter:off
//
// Balau core C++ library
//
// Copyright (C) 2008 Bora Software (contact@borasoftware.com)
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// You may obtain a copy of the License at
//
//     http://www.apache.org/licenses/LICENSE-2.0
//
// Unless required by applicable law or agreed to in writing, software
// distributed under the License is distributed on an "AS IS" BASIS,
// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
// See the License for the specific language governing permissions and
// limitations under the License.
//

#ifndef COM_BORA_SOFTWARE__BALAU__TEST_RESOURCES
#define COM_BORA_SOFTWARE__BALAU__TEST_RESOURCES

#include <Balau/Testing/TestRunner.hpp>

using namespace Balau::Testing;

namespace Balau {

struct TestResources final {
	const static Resource::File BaseFolder;
	const static Resource::File SourceFolder;
	const static Resource::File SourceMainFolder;
	const static Resource::File SourceTestFolder;
	const static Resource::File SourceTestResourcesFolder;
	const static Resource::File TargetFolder;
	const static Resource::File TestResultsFolder;

	const static std::string TestEmailHost;
	const static std::string TestEmailPort;
	const static std::string TestEmailSenderUser;
	const static std::string TestEmailSenderPassword;
	const static std::string TestEmailTo;

	///
	/// Asserts that the test resource file exists and returns a file pointing to it.
	///
	static Resource::File assertTestResourceFileExists(const std::string & relativePath);

	static std::string getTestResourceAsString(const std::string & relativePath);

	///////////////////////////////////////////////////////////////////////////

	TestResources() = delete;
	TestResources(const TestResources &) = delete;
	TestResources & operator = (const TestResources &) = delete;
};

} // namespace Balau

#endif // COM_BORA_SOFTWARE__BALAU__TEST_RESOURCES
