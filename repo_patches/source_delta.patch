From 5c55fa6cec980fb9ec77a0e33e55753193f51032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 01/60] fix: ArrayBlockingQueue full() and empty() read the
 element count without synchronisation

---
 src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
index db186db..1a78dfc 100644
--- a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
+++ b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
@@ -29,6 +29,7 @@
 #include <Balau/Container/BlockingQueue.hpp>
 #include <Balau/Type/StdTypes.hpp>
 
+#include <atomic>
 #include <condition_variable>
 
 namespace Balau::Container {
@@ -233,7 +234,7 @@ template <typename T> class ArrayBlockingQueue : public BlockingQueue<T> {
 	}
 
 	private: std::vector<T> elements;
-	private: size_t count;
+	private: std::atomic<size_t> count; // Read by full() and empty() without the lock.
 	private: size_t head;
 	private: size_t tail;
 	private: std::mutex mutex;
-- 
2.43.0


From 7d6c5cf459c78d37468a3b94df7c265e2e691308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 02/60] fix: Logger::getConfiguration reads the properties
 without the lock that reconfiguration holds

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 5 +++++
 src/main/cpp/Balau/Logging/Impl/LoggingState.hpp | 3 +++
 src/main/cpp/Balau/Logging/Logger.cpp            | 5 ++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 1153364..3defccd 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -304,6 +304,11 @@ void LoggingState::lockConfiguration(bool throwOnReconfigure) {
 	noisy |= throwOnReconfigure;
 }
 
+std::map<std::string, std::string> LoggingState::getProperties(const Logger & logger) {
+	std::lock_guard<std::mutex> lock(loggingStateHolder().mutex);
+	return logger.properties;
+}
+
 void LoggingState::performFlushAll() {
 	for (auto & stream : streamPoolsByUri) {
 		stream.second->flush();
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
index 5d19941..8953adb 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
@@ -76,6 +76,9 @@ class LoggingState final {
 	// Lock the logging system configuration, preventing reconfiguration.
 	void lockConfiguration(bool throwOnReconfigure = false);
 
+	// Get a copy of the properties of the supplied logger.
+	std::map<std::string, std::string> getProperties(const Logger & logger);
+
 	// Flush all logging streams - lock already acquired.
 	void performFlushAll();
 
diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 98eac46..0058155 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -82,7 +82,10 @@ std::string Logger::getConfiguration() const {
 
 	stream << nameSpace << " {\n";
 
-	for (const auto & property : properties) {
+	// The properties are rewritten when the logging system is reconfigured.
+	const auto currentProperties = LoggingState::loggingSystemState().getProperties(*this);
+
+	for (const auto & property : currentProperties) {
 		stream << "    " << property.first << " = " << property.second << "\n";
 	}
 
-- 
2.43.0


From 5540a9b61223b9d630711701658a9fc490d01422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 03/60] fix: a log message with fewer parameters than
 placeholders read past the end of a destroyed vector

---
 src/main/cpp/Balau/Logging/Logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 0058155..43a63e7 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -286,12 +286,13 @@ void Logger::logMessage(const SourceCodeLocation & location,
 	auto messageItems = textToMessageItems(message, parameterCount);
 	LoggerOStringStream messageTextStream;
 	const LoggerStringVector * finalParameters;
+	LoggerStringVector replacementParameters;
 
 	if (parameters.size() < parameterCount) {
 		// The logging message does not have enough parameters.
-		LoggerStringVector replacementParameters = parameters;
+		replacementParameters = parameters;
 
-		while (parameterCount < parameters.size()) {
+		while (replacementParameters.size() < parameterCount) {
 			replacementParameters.emplace_back("????");
 		}
 
-- 
2.43.0


From d2cca029b53c4cbdbec1cb77bd0e5fe60406c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 04/60] fix: a file logging stream with a date placeholder
 never opened its file, and one without waited without a predicate

---
 .../cpp/Balau/Logging/Impl/LoggingStreams.cpp     | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
index 10e07f3..d4c01eb 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
@@ -42,14 +42,13 @@ std::regex FileLoggingStream::dateRegExExact(
 FileLoggingStream::FileLoggingStream(std::shared_ptr<System::Clock> clock_, std::string_view uri)
 	: clock(std::move(clock_))
 	, pathComponents(Util::Vectors::toStringVector(Strings::split(uri, dateRegEx, false)))
-	, running(Strings::occurrences(uri, dateRegEx) == 0) {
+	, running(Strings::occurrences(uri, dateRegEx) != 0) {
+
+	createNewStream();
 
 	// Only run the updater thread if the URI contains date placeholders.
 	if (running) {
-		std::unique_lock<std::mutex> lock(syncMutex);
 		updater = std::thread(updateFunction, this);
-		// Wait until the updater thread unlocks this thread.
-		syncCondition.wait(lock);
 	}
 }
 
@@ -167,13 +166,7 @@ void FileLoggingStream::createNewStream() {
 void FileLoggingStream::updateFunction(FileLoggingStream * const self) {
 	std::unique_lock<std::mutex> lock(self->syncMutex);
 
-	self->createNewStream();
-
-	// Prep the constructor for unlock.
-	// The constructor will unlock when wait is entered in this thread.
-	self->syncCondition.notify_all();
-
-	while (true) {
+	while (self->running) {
 		// The destructor will notify this wait when the system shuts down.
 		self->syncCondition.wait(lock);
 
-- 
2.43.0


From 443bc4fb9823b80bf7d1c2e964799a5512292b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 05/60] fix: HttpServer::startSync held its lock while calling
 stop, which acquires it

---
 src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
index 861ebd5..8a649cb 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
@@ -195,6 +195,9 @@ void HttpServer::startSync() {
 	// Last worker is on this thread.
 	const std::string previousThreadName = System::ThreadName::getName();
 
+	// The stop method acquires the lock.
+	lock.unlock();
+
 	workerThreadFunction(workerCount - 1);
 
 	stop(false);
-- 
2.43.0


From 727aaef8cf6104f58f201c546c477b2bbdfd6aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 06/60] fix: initialise the archive pointer of an unopened
 Unzipper

---
 src/main/cpp/Balau/Util/Zip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 4d0e60e..0686c74 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -752,7 +752,7 @@ class Unzipper {
 		ThrowBalauException(Exception::ZipException, errorMessage + ": " + std::string(errorString) + ".", path);
 	}
 
-	protected: void * archive;
+	protected: void * archive = nullptr;
 	protected: Resource::File path;
 };
 
-- 
2.43.0


From 495c8638b5825e47a27791518c1d4f065d4a0f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 07/60] fix: initialise the scanner's start offset

---
 src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index 1ad720e..7c175b2 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -264,7 +264,7 @@ template <typename TokenT> class AbstractScanner {
 	private: std::string text;
 	private: std::istringstream inputStream;
 	private: std::stack<char32_t> putBackBuffer;
-	private: int currentStartOffset;
+	private: int currentStartOffset = 0;
 	private: int currentEndOffset;
 	private: std::vector<TokenT> tokens;
 	private: std::vector<unsigned int> startOffsets;
-- 
2.43.0


From 5f3da82e1b797ccfe2345b96484c7a54fdf35660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 08/60] fix: initialise the key of a default constructed
 command line option

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index ce26fba..ac706dd 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -877,7 +877,7 @@ template <typename KeyT> class CommandLine {
 		bool hasValue;
 		std::string documentation;
 
-		Option() : hasValue(false) {}
+		Option() : key(), hasValue(false) {}
 
 		Option(KeyT key_,
 		       std::string shortSwitch_,
-- 
2.43.0


From f4b424691bffc5ddd39bca0f5bc819928ba34d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 09/60] fix: initialise the executed flag of SingleTimeExecutor

---
 src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
index 2db6545..f84a5e0 100644
--- a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
+++ b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
@@ -122,7 +122,7 @@ class SingleTimeExecutor {
 
 	private: std::function<void ()> code;
 	private: std::function<void ()> destructorCode;
-	private: std::atomic<bool> executed;
+	private: std::atomic<bool> executed { false };
 	private: std::mutex mutex;
 };
 
-- 
2.43.0


From 1dadae4b1eb08f1562167ce4f4e09b6cff41dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 10/60] fix: copying a dependency graph iterator did not
 initialise its graph reference

---
 src/main/cpp/Balau/Container/DependencyGraph.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Container/DependencyGraph.hpp b/src/main/cpp/Balau/Container/DependencyGraph.hpp
index 914a2e4..8d370f1 100644
--- a/src/main/cpp/Balau/Container/DependencyGraph.hpp
+++ b/src/main/cpp/Balau/Container/DependencyGraph.hpp
@@ -109,7 +109,8 @@ class DependencyGraph {
 		/// Create an iterator by copying the supplied iterator.
 		///
 		public: iterator(const iterator & copy)
-			: vertexIter(copy.vertexIter) {}
+			: graph(copy.graph)
+			, vertexIter(copy.vertexIter) {}
 
 		///
 		/// Set the current iterator to a copy of the supplied iterator.
@@ -196,7 +197,8 @@ class DependencyGraph {
 		/// Create an iterator by copying the supplied iterator.
 		///
 		public: const_iterator(const const_iterator & copy)
-			: vertexIter(copy.vertexIter) {}
+			: graph(copy.graph)
+			, vertexIter(copy.vertexIter) {}
 
 		///
 		/// Set the current iterator to a copy of the supplied iterator.
-- 
2.43.0


From e323c8d919e2d4a6bad30ae167acb1c2cbbaf0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 11/60] fix: moving a ZipFile dropped its password

---
 src/main/cpp/Balau/Resource/ZipFile.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Resource/ZipFile.hpp b/src/main/cpp/Balau/Resource/ZipFile.hpp
index f826863..6f138bc 100644
--- a/src/main/cpp/Balau/Resource/ZipFile.hpp
+++ b/src/main/cpp/Balau/Resource/ZipFile.hpp
@@ -209,7 +209,8 @@ class ZipFile : public File {
 	/// Create a new zip file by moving the contents of the supplied instance.
 	///
 	public: ZipFile(ZipFile && zipFile) noexcept
-		: File(std::move(zipFile)) {}
+		: File(std::move(zipFile))
+		, password(std::move(zipFile.password)) {}
 
 	///
 	/// Assign the zip file by copying the supplied instance.
-- 
2.43.0


From 2b7e0e0bcb4e85943774dcb67cd4157ff53c9767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 12/60] fix: files and directory entries that compare equal had
 different hash codes

---
 src/main/cpp/Balau/Resource/File.hpp | 7 ++++++-
 src/main/cpp/Balau/Util/Files.hpp    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index d18b354..05a1d92 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -516,7 +516,12 @@ class File : public Uri {
 	}
 
 	public: size_t hashcode() const noexcept override {
-		return std::hash<std::string>()(entry.path().string());
+		// Paths are equal when their elements are, however these are separated.
+		size_t h = 0;
+		for (const auto & element : entry.path()) {
+			h = 31 * h + std::hash<std::string>()(element.string());
+		}
+		return h;
 	}
 
 	///
diff --git a/src/main/cpp/Balau/Util/Files.hpp b/src/main/cpp/Balau/Util/Files.hpp
index 895e52f..93fcb86 100644
--- a/src/main/cpp/Balau/Util/Files.hpp
+++ b/src/main/cpp/Balau/Util/Files.hpp
@@ -39,7 +39,12 @@ namespace std { // NOLINT
 
 template <> struct hash<boost::filesystem::directory_entry> {
 	size_t operator () (const boost::filesystem::directory_entry & value) const noexcept {
-		return hash<boost::filesystem::path::string_type>()(value.path().native());
+		// Paths are equal when their elements are, however these are separated.
+		size_t h = 0;
+		for (const auto & element : value.path()) {
+			h = 31 * h + hash<boost::filesystem::path::string_type>()(element.native());
+		}
+		return h;
 	}
 };
 
-- 
2.43.0


From f4703157c44947ad455f0df75ecff4704c9bc0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 13/60] fix: composite properties compared the addresses of
 their children for equality

---
 src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index 670622d..6d1b988 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -32,6 +32,7 @@
 #include <Balau/Lang/Common/CodeSpan.hpp>
 #include <Balau/Type/Character.hpp>
 
+#include <algorithm>
 #include <memory>
 #include <string>
 #include <vector>
@@ -339,7 +340,10 @@ class CompositeProperty final : public PropertyNode {
 			ret = false;
 		} else {
 			ret = name == o->name
-				&& nodes == o->nodes
+				&& std::equal(
+					  nodes.begin(), nodes.end(), o->nodes.begin(), o->nodes.end()
+					, [] (const auto & l, const auto & r) { return *l == *r; }
+				)
 				&& PropertyNode::operator == (rhs);
 		}
 
-- 
2.43.0


From c9b5f771c65402d3f3e060a02b3f97c8481045b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 14/60] fix: destroying or closing a moved-from file, HTTP or
 string resource dereferenced its null stream

---
 src/main/cpp/Balau/Resource/File.hpp      | 16 ++++++++++++----
 src/main/cpp/Balau/Resource/Http.hpp      | 16 ++++++++++++----
 src/main/cpp/Balau/Resource/StringUri.hpp |  4 ++++
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index 05a1d92..b1daf4c 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -746,7 +746,9 @@ class FileByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -797,7 +799,9 @@ class FileByteWriteResource : public ByteWriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -854,7 +858,9 @@ class FileUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -911,7 +917,9 @@ class FileUtf32To8WriteResource : public Utf32To8WriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
diff --git a/src/main/cpp/Balau/Resource/Http.hpp b/src/main/cpp/Balau/Resource/Http.hpp
index 0e1197e..e88bbc4 100644
--- a/src/main/cpp/Balau/Resource/Http.hpp
+++ b/src/main/cpp/Balau/Resource/Http.hpp
@@ -447,7 +447,9 @@ class HttpByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -486,7 +488,9 @@ class HttpsByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -532,7 +536,9 @@ class HttpsUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		utf32Stream->close();
+		if (utf32Stream) {
+			utf32Stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -580,7 +586,9 @@ class HttpUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		utf32Stream->close();
+		if (utf32Stream) {
+			utf32Stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
diff --git a/src/main/cpp/Balau/Resource/StringUri.hpp b/src/main/cpp/Balau/Resource/StringUri.hpp
index 8e584e6..3904594 100644
--- a/src/main/cpp/Balau/Resource/StringUri.hpp
+++ b/src/main/cpp/Balau/Resource/StringUri.hpp
@@ -358,6 +358,10 @@ class StringUriUtf32To8WriteResource : public Utf32To8WriteResource {
 	}
 
 	public: void close() override {
+		if (!utf32Stream) {
+			return;
+		}
+
 		// TODO Determine why the temporary padding is required.. is this a defect?
 		*utf32Stream << U"XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX";
 		utf32Stream->flush();
-- 
2.43.0


From 672a6376fc1bf69136daa3caac4fb764597b1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 15/60] fix: clearing or executing a moved-from
 MovableOnScopeExit dereferenced a null pointer

---
 src/main/cpp/Balau/Type/MovableOnScopeExit.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
index a7d8f85..ce5b52e 100644
--- a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
+++ b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
@@ -60,14 +60,18 @@ class MovableOnScopeExit final {
 	/// Set to the function to NOP (cancels scheduled execution).
 	///
 	public: void clear() {
-		exiter->clear();
+		if (exiter) {
+			exiter->clear();
+		}
 	}
 
 	///
 	/// Execute the function now and then clear it.
 	///
 	public: void executeNow() {
-		exiter->executeNow();
+		if (exiter) {
+			exiter->executeNow();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From 2591c6fa6debc96df6f40c7982a767816881046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 16/60] fix: stopping or destroying a moved-from HttpServer
 dereferenced its null mutex

---
 src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
index 8a649cb..539d70d 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
@@ -211,6 +211,10 @@ bool HttpServer::isRunning() {
 }
 
 void HttpServer::stop(bool warn) {
+	if (!mutex) {
+		return; // moved from
+	}
+
 	std::lock_guard<std::mutex> lock(*mutex);
 
 	if (workers.empty()) {
-- 
2.43.0


From 795db8fbb3aa8941bb69af312fb10debc5251266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:29 +0000
Subject: [PATCH 17/60] fix: SharedMemoryQueue::tryDequeue never set its
 success argument

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 4811e66..63d5f79 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -491,7 +491,9 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		unsigned long receivedSize;
 		unsigned int priority;
 
-		if (!tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime)) {
+		success = tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime);
+
+		if (!success) {
 			return T();
 		}
 
@@ -504,7 +506,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// The object is split across multiple buffers, potentially interleaved with other buffers.
 			return performMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -515,6 +517,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 						);
 
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
@@ -525,7 +528,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// This is a partially dequeued multi-chunk dequeue which was previously placed on the pending queue.
 			return completeMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -535,6 +538,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
 						);
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
-- 
2.43.0


From 7e8c7ce28cf261eee7f034ac10144461451990b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 18/60] fix: getting the information or name of an archive
 entry by index did not check that the archive is open

---
 src/main/cpp/Balau/Util/Zip.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 0686c74..27ce6f5 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -364,6 +364,7 @@ class Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: std::string getEntryName(long long index) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
 		ZipEntryInfo info;
 
 		try {
@@ -409,6 +410,7 @@ class Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void getEntryInfo(long long index, ZipEntryInfo & info) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
 		zip_stat_t sb {};
 
 		if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), index, 0, &sb) < 0) {
-- 
2.43.0


From 3aaa539b5a886d439b6398bc01d3afbf4966811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 19/60] fix: reading the comment of an archive entry by index
 ignored a closed archive and a missing entry

---
 src/main/cpp/Balau/Util/Zip.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 27ce6f5..cea3967 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -456,6 +456,10 @@ class Unzipper {
 	/// @throw ZipException if the entry comment could not be obtained
 	///
 	public: std::string readEntryComment(long long index) const {
+		// Throws if the archive is not open or the entry does not exist.
+		ZipEntryInfo info;
+		getEntryInfo(index, info);
+
 		const char * comment = zip_file_get_comment(
 			Impl::ZipUtilities<>::cast(archive)
 			, index
-- 
2.43.0


From 13a4d8c47e585a805fee694d605fa43da64ea65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 20/60] fix: reading an archive entry that ends before its
 recorded size looped for ever

---
 src/main/cpp/Balau/Util/Zip.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index cea3967..24336a0 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -600,7 +600,8 @@ class Unzipper {
 		while (bytesRemaining > 0) {
 			long long bytesRead = zip_fread(zipFile, data, bytesRemaining);
 
-			if (bytesRead < 0) {
+			// No bytes are read if the entry's data ends before the size recorded for it.
+			if (bytesRead <= 0) {
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
@@ -645,7 +646,8 @@ class Unzipper {
 		while (bytesRemaining > 0) {
 			long long bytesRead = zip_fread(zipFile, buffer.data(), bytesRemaining);
 
-			if (bytesRead < 0) {
+			// No bytes are read if the entry's data ends before the size recorded for it.
+			if (bytesRead <= 0) {
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
-- 
2.43.0


From edf894f01f43726fa4ed98c54ad9242dee1e225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 21/60] fix: reading an archive entry as a string wrote beyond
 a fixed size buffer

---
 src/main/cpp/Balau/Util/Zip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 24336a0..89ffa3f 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -644,7 +644,7 @@ class Unzipper {
 		std::array<char, 1024 * 2> buffer {};
 
 		while (bytesRemaining > 0) {
-			long long bytesRead = zip_fread(zipFile, buffer.data(), bytesRemaining);
+			long long bytesRead = zip_fread(zipFile, buffer.data(), std::min(bytesRemaining, (long long) buffer.size()));
 
 			// No bytes are read if the entry's data ends before the size recorded for it.
 			if (bytesRead <= 0) {
-- 
2.43.0


From f541ec4f14b24dea42f9c846258513a39f8ad76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 22/60] fix: getting a read resource for an entry of a closed
 archive dereferenced a null archive

---
 src/main/cpp/Balau/Resource/ZipEntry.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/ZipEntry.hpp b/src/main/cpp/Balau/Resource/ZipEntry.hpp
index b1c3b12..8934f3b 100644
--- a/src/main/cpp/Balau/Resource/ZipEntry.hpp
+++ b/src/main/cpp/Balau/Resource/ZipEntry.hpp
@@ -274,6 +274,10 @@ class ZipEntrySource : public boost::iostreams::source {
 	////////////////////////// Private implementation /////////////////////////
 
 	private: std::shared_ptr<void> createZipFilePointer(Util::Unzipper & archive) {
+		if (!archive.isOpen()) {
+			ThrowBalauException(Exception::ZipException, "Zip archive is not open.", archive.path);
+		}
+
 		zip_file_t * file = zip_fopen_index((zip_t *) archive.archive, index, 0);
 
 		if (file == nullptr) {
-- 
2.43.0


From 22a9a32cd21660fc986f6948301ce846f7692549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:36 +0000
Subject: [PATCH 23/60] fix: Files read functions throw when the file cannot be
 opened

---
 src/main/cpp/Balau/Util/Files.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Files.hpp b/src/main/cpp/Balau/Util/Files.hpp
index 93fcb86..77702cc 100644
--- a/src/main/cpp/Balau/Util/Files.hpp
+++ b/src/main/cpp/Balau/Util/Files.hpp
@@ -108,6 +108,11 @@ struct Files final {
 		}
 
 		boost::filesystem::ifstream inputStream(file.getEntry());
+
+		if (!inputStream.is_open()) {
+			ThrowBalauException(Exception::FileNotFoundException, file);
+		}
+
 		std::vector<std::string> lines;
 		std::string s;
 
@@ -129,6 +134,11 @@ struct Files final {
 		}
 
 		boost::filesystem::ifstream inputStream(file.getEntry());
+
+		if (!inputStream.is_open()) {
+			ThrowBalauException(Exception::FileNotFoundException, file);
+		}
+
 		std::istreambuf_iterator<char> eos;
 		return std::string(std::istreambuf_iterator<char>(inputStream), eos);
 	}
@@ -144,6 +154,11 @@ struct Files final {
 		}
 
 		boost::filesystem::ifstream inputStream(file.getEntry());
+
+		if (!inputStream.is_open()) {
+			ThrowBalauException(Exception::FileNotFoundException, file);
+		}
+
 		std::istreambuf_iterator<char> eos;
 		return std::vector<char>(std::istreambuf_iterator<char>(inputStream), eos);
 	}
-- 
2.43.0


From 64b0508dae7bfd5aee0954869e24245b4c50518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:36 +0000
Subject: [PATCH 24/60] fix: Hashing throws when the file cannot be opened

---
 src/main/cpp/Balau/Util/Hashing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Hashing.hpp b/src/main/cpp/Balau/Util/Hashing.hpp
index 22a3d78..ae772be 100644
--- a/src/main/cpp/Balau/Util/Hashing.hpp
+++ b/src/main/cpp/Balau/Util/Hashing.hpp
@@ -225,7 +225,7 @@ struct Hashing final {
 
 		auto stream = std::make_unique<boost::filesystem::ifstream>(file.getEntry(), std::ios::in | std::ios::binary);
 
-		if (!stream.get()) {
+		if (!stream->is_open()) {
 			ThrowBalauException(Exception::CouldNotOpenException, file.clone());
 		}
 
-- 
2.43.0


From f2d384793af15eab9a7522d68aa651cd4af1bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:48 +0000
Subject: [PATCH 25/60] fix: GZip throws when an input or output file cannot be
 opened

---
 src/main/cpp/Balau/Util/Compression.hpp | 40 +++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Compression.hpp b/src/main/cpp/Balau/Util/Compression.hpp
index afabcb2..9cdf451 100644
--- a/src/main/cpp/Balau/Util/Compression.hpp
+++ b/src/main/cpp/Balau/Util/Compression.hpp
@@ -54,10 +54,20 @@ struct GZip final {
 	///
 	static void gzip(const Resource::File & input, const Resource::File & output) {
 		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
+
+		if (!out.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, output.clone());
+		}
+
 		boost::iostreams::filtering_streambuf<boost::iostreams::output> filter;
 		filter.push(boost::iostreams::gzip_compressor());
 		filter.push(out);
 		boost::filesystem::ifstream in(input.getEntry(), std::ios::binary);
+
+		if (!in.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, input.clone());
+		}
+
 		boost::iostreams::copy(in, filter);
 	}
 
@@ -69,6 +79,11 @@ struct GZip final {
 	///
 	static void gzip(const std::string & input, const Resource::File & output) {
 		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
+
+		if (!out.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, output.clone());
+		}
+
 		boost::iostreams::filtering_streambuf<boost::iostreams::output> filter;
 		filter.push(boost::iostreams::gzip_compressor());
 		filter.push(out);
@@ -84,6 +99,11 @@ struct GZip final {
 	///
 	static void gzip(std::istream & input, const Resource::File & output) {
 		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
+
+		if (!out.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, output.clone());
+		}
+
 		boost::iostreams::filtering_streambuf<boost::iostreams::output> filter;
 		filter.push(boost::iostreams::gzip_compressor());
 		filter.push(out);
@@ -98,10 +118,20 @@ struct GZip final {
 	///
 	static void gunzip(const Resource::File & input, const Resource::File & output) {
 		boost::filesystem::ifstream in(input.getEntry(), std::ios::binary);
+
+		if (!in.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, input.clone());
+		}
+
 		boost::iostreams::filtering_streambuf<boost::iostreams::input> filter;
 		filter.push(boost::iostreams::gzip_decompressor());
 		filter.push(in);
 		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
+
+		if (!out.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, output.clone());
+		}
+
 		boost::iostreams::copy(filter, out);
 	}
 
@@ -116,6 +146,11 @@ struct GZip final {
 	///
 	static void gunzip(const Resource::File & input, std::string & output) {
 		boost::filesystem::ifstream in(input.getEntry(), std::ios::binary);
+
+		if (!in.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, input.clone());
+		}
+
 		boost::iostreams::filtering_streambuf<boost::iostreams::input> filter;
 		filter.push(boost::iostreams::gzip_decompressor());
 		filter.push(in);
@@ -132,6 +167,11 @@ struct GZip final {
 	///
 	static void gunzip(const Resource::File & input, std::unique_ptr<std::istream> & stream) {
 		boost::filesystem::ifstream inputStream(input.getEntry(), std::ios::binary);
+
+		if (!inputStream.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, input.clone());
+		}
+
 		stream = std::make_unique<boost::iostreams::filtering_istream>();
 		auto * filterStream = static_cast<boost::iostreams::filtering_istream *>(stream.get());
 		filterStream->push(boost::iostreams::gzip_decompressor());
-- 
2.43.0


From 9edf4659806c10c1d60b4703da72b8eab320d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:16 +0000
Subject: [PATCH 26/60] fix: Fork::terminateProcess kills a process that is
 still running and reports failure of the kill

---
 src/main/cpp/Balau/Concurrent/Fork.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/Fork.hpp b/src/main/cpp/Balau/Concurrent/Fork.hpp
index 1e723aa..9f84a72 100644
--- a/src/main/cpp/Balau/Concurrent/Fork.hpp
+++ b/src/main/cpp/Balau/Concurrent/Fork.hpp
@@ -267,7 +267,7 @@ class Fork {
 	///
 	/// @param pid the process id
 	/// @return a termination report
-	/// @throw WaitException if the waitid call failed
+	/// @throw WaitException if the waitid or kill call failed
 	///
 	public: static TerminationReport terminateProcess(int pid) {
 		if (pid <= 0) {
@@ -290,12 +290,15 @@ class Fork {
 				}
 
 				default: {
-					kill(pid, SIGKILL);
 					break;
 				}
 			}
 		}
 
+		if (kill(pid, SIGKILL) == -1) {
+			ThrowBalauException(Exception::WaitException, errno);
+		}
+
 		return TerminationReport();
 	}
 };
-- 
2.43.0


From f53ce7239d4685f38e43e948ba0ff254b751e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:16 +0000
Subject: [PATCH 27/60] fix: User::getHomeDirectory ends when the passwd entry
 was found and retries with a larger buffer

---
 src/main/cpp/Balau/Util/User.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Util/User.hpp b/src/main/cpp/Balau/Util/User.hpp
index cf699c1..29832dc 100644
--- a/src/main/cpp/Balau/Util/User.hpp
+++ b/src/main/cpp/Balau/Util/User.hpp
@@ -95,9 +95,10 @@ struct User final {
 			int s;
 			size_t bufferSize = 512;
 			std::vector<char> buffer(bufferSize);
-			bool repeat = false;
+			bool repeat;
 
 			do {
+				repeat = false;
 				s = getpwuid_r(getuid(), &pwd, buffer.data(), bufferSize, &result);
 
 				if (result == nullptr) {
@@ -106,7 +107,7 @@ struct User final {
 							  Exception::UserNotFoundException
 							, "Failed to locate the user home directory: user entry not found in passwd."
 						);
-					} else if (errno == ERANGE) {
+					} else if (s == ERANGE) {
 						// Give up at 1MB buffer size.
 						if (bufferSize >= 1048576) {
 							ThrowBalauException(
@@ -122,11 +123,11 @@ struct User final {
 						ThrowBalauException(
 							  Exception::UserNotFoundException
 							, "Failed to locate the user home directory: getpwnam_r raised an error, errno = " +
-							  ::toString(errno)
+							  ::toString(s)
 						);
 					}
 				}
-			} while (!repeat);
+			} while (repeat);
 
 			if (result == nullptr || result->pw_dir == nullptr) {
 				ThrowBalauException(
-- 
2.43.0


From c3e8181a010520138e1546522c6e83cb68cb0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:17 +0000
Subject: [PATCH 28/60] fix: report a failure to initialise Curl

---
 .../Http/Server/HttpWebApps/Impl/CurlInitializer.cpp      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlInitializer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlInitializer.cpp
index 56772d7..ec69732 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlInitializer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlInitializer.cpp
@@ -35,7 +35,13 @@ class CurlInitializerImpl {
 	public: CurlInitializerImpl() : initializer(
 		[] () {
 			log.info("Initializing Curl.");
-			curl_global_init(CURL_GLOBAL_ALL);
+			const CURLcode res = curl_global_init(CURL_GLOBAL_ALL);
+
+			if (res != CURLE_OK) {
+				log.error("Failed to initialize Curl due to Curl error: {}", curl_easy_strerror(res));
+				return;
+			}
+
 			log.info("Finished initializing Curl.");
 		}
 		, [] () {
-- 
2.43.0


From 59eaffe4242394369ee8f410159da6e1635d0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:27 +0000
Subject: [PATCH 29/60] fix: Files read functions throw FileNotFoundException
 when the file is not a regular file

---
 src/main/cpp/Balau/Util/Files.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Files.hpp b/src/main/cpp/Balau/Util/Files.hpp
index 77702cc..492fa58 100644
--- a/src/main/cpp/Balau/Util/Files.hpp
+++ b/src/main/cpp/Balau/Util/Files.hpp
@@ -103,7 +103,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::vector<std::string> toLines(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.exists() || !file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
@@ -129,7 +129,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::string readToString(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.exists() || !file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
@@ -149,7 +149,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::vector<char> readToVector(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.exists() || !file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
-- 
2.43.0


From 633eb1bdb39606d7405a61f0fd09f76bfe49d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:27 +0000
Subject: [PATCH 30/60] fix: Hashing throws FileNotFoundException when the file
 is not a regular file

---
 src/main/cpp/Balau/Util/Hashing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Hashing.hpp b/src/main/cpp/Balau/Util/Hashing.hpp
index ae772be..24b800a 100644
--- a/src/main/cpp/Balau/Util/Hashing.hpp
+++ b/src/main/cpp/Balau/Util/Hashing.hpp
@@ -219,7 +219,7 @@ struct Hashing final {
 	////////////////////////// Private implementation /////////////////////////
 
 	private: static std::unique_ptr<boost::filesystem::ifstream> getFileStream(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.exists() || !file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
-- 
2.43.0


From 70fab086f2337126fe9b4ed9e19af31dcbc0637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:43 +0000
Subject: [PATCH 31/60] fix: ZipEntry::hashcode is noexcept but threw when the
 archive is closed

---
 src/main/cpp/Balau/Resource/ZipEntry.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/ZipEntry.hpp b/src/main/cpp/Balau/Resource/ZipEntry.hpp
index 8934f3b..082a447 100644
--- a/src/main/cpp/Balau/Resource/ZipEntry.hpp
+++ b/src/main/cpp/Balau/Resource/ZipEntry.hpp
@@ -152,9 +152,7 @@ class ZipEntry : public Uri {
 	}
 
 	public: size_t hashcode() const noexcept override {
-		Util::ZipEntryInfo info {};
-		archive.getEntryInfo(entryIndex, info);
-		return archive.getPath().hashcode() ^ std::hash<std::string>()(::toString(info.name));
+		return archive.getPath().hashcode() ^ std::hash<decltype(entryIndex)>()(entryIndex);
 	}
 
 	public: bool operator == (const Uri & rhs) const override {
-- 
2.43.0


From e4e7ffcd9fee1bfde8622a9e635a8c1d13f37c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 32/60] fix: an exception while creating a new logging file
 terminated the process from the updater thread

---
 src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
index d4c01eb..0eed0d8 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
@@ -21,6 +21,8 @@
 #include "../../Util/DateTime.hpp"
 #include "../../Util/Hashing.hpp"
 
+#include <iostream>
+
 #ifdef BALAU_ENABLE_ZLIB
 	#include "../../Util/Compression.hpp"
 #endif
@@ -174,7 +176,12 @@ void FileLoggingStream::updateFunction(FileLoggingStream * const self) {
 			return;
 		}
 
-		self->createNewStream();
+		try {
+			self->createNewStream();
+		} catch (const std::exception & e) {
+			// An exception must not leave the thread.
+			std::cerr << "Failed to create a new logging file: " << e.what() << std::endl;
+		}
 	}
 }
 
-- 
2.43.0


From d456996e284d06ab0f7b72f2413bd924c48c32a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:55 +0000
Subject: [PATCH 33/60] fix: Injector::registerStaticSingleton kept a view of
 the caller's name for a later call

---
 src/main/cpp/Balau/Application/Injector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 65f02a7..1b38d5d 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -126,7 +126,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @param name an optional binding name
 	///
 	public: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		registerPostConstructionCallImpl([ptrPtr, name] (const Injector & injector) { *ptrPtr  = injector.getShared<T>(name); });
+		registerPostConstructionCallImpl([ptrPtr, name = std::string(name)] (const Injector & injector) { *ptrPtr  = injector.getShared<T>(name); });
 		registerPreDestructionCallImpl([ptrPtr] () { ptrPtr->reset(); });
 	}
 
-- 
2.43.0


From ea76fda74cbff1366eee645e49ee70308d15f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:55 +0000
Subject: [PATCH 34/60] fix: the stream returned by GZip::gunzip referred to a
 destroyed file stream

---
 src/main/cpp/Balau/Util/Compression.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Compression.hpp b/src/main/cpp/Balau/Util/Compression.hpp
index 9cdf451..a01d260 100644
--- a/src/main/cpp/Balau/Util/Compression.hpp
+++ b/src/main/cpp/Balau/Util/Compression.hpp
@@ -36,6 +36,7 @@
 #include <iosfwd>
 #include <sstream>
 
+#include <boost/iostreams/device/file.hpp>
 #include <boost/iostreams/filtering_stream.hpp>
 
 namespace Balau {
@@ -166,7 +167,8 @@ struct GZip final {
 	/// @return an input stream wrapper supplying a uncompressed stream
 	///
 	static void gunzip(const Resource::File & input, std::unique_ptr<std::istream> & stream) {
-		boost::filesystem::ifstream inputStream(input.getEntry(), std::ios::binary);
+		// The returned stream owns a copy of the source.
+		boost::iostreams::file_source inputStream(input.toRawString(), std::ios::binary);
 
 		if (!inputStream.is_open()) {
 			ThrowBalauException(Exception::CouldNotOpenException, input.clone());
-- 
2.43.0


From 283cb3d0e5075e0c9284506ce512a73002bb31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:12 +0000
Subject: [PATCH 35/60] fix: Zipper::putEntry left the caller's buffer in the
 archive until commit without copying it

---
 src/main/cpp/Balau/Util/Zip.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 89ffa3f..69e8bf4 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -42,6 +42,8 @@
 
 #include <algorithm>
 #include <chrono>
+#include <cstdlib>
+#include <cstring>
 #include <iosfwd>
 #include <sstream>
 
@@ -904,7 +906,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::vector<char> & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.data(), bytes.size(), 0); });
+		putEntry(name, [&bytes, this] () { return createBufferSource(bytes.data(), bytes.size()); });
 	}
 
 	///
@@ -919,7 +921,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::string & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.c_str(), bytes.length(), 0); });
+		putEntry(name, [&bytes, this] () { return createBufferSource(bytes.c_str(), bytes.length()); });
 	}
 
 	///
@@ -1021,6 +1023,27 @@ class Zipper : public Unzipper {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	// LibZip reads the buffer when the archive is committed, thus the source must own a copy of the data.
+	private: zip_source_t * createBufferSource(const char * bytes, size_t length) {
+		void * copy = malloc(std::max(length, (size_t) 1));
+
+		if (copy == nullptr) {
+			return nullptr;
+		}
+
+		if (length > 0) {
+			memcpy(copy, bytes, length);
+		}
+
+		zip_source_t * source = zip_source_buffer(Impl::ZipUtilities<>::cast(archive), copy, length, 1);
+
+		if (source == nullptr) {
+			free(copy);
+		}
+
+		return source;
+	}
+
 	// Common implementation for putEntry methods.
 	private: template <typename SourceFunctionT> void putEntry(const std::string & name, SourceFunctionT getSource) {
 		Impl::ZipUtilities<>::checkOpen(*this);
-- 
2.43.0


From 5c1568838b213c67de41724d4c9c9f69582f65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:52 +0000
Subject: [PATCH 36/60] fix: a listener failure in HttpServer::startAsync
 terminated the process from a worker thread

---
 .../cpp/Balau/Network/Http/Server/HttpServer.cpp   | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
index 539d70d..9fec331 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
@@ -147,15 +147,13 @@ void HttpServer::startAsync() {
 	workers.reserve(workerCount);
 	launched->store(0U);
 
-	// Launch the first worker thread that also launches the listener.
-	workers.emplace_back(
-		[this] {
-			launchListener();
-			workerThreadFunction(0);
-		}
-	);
+	// Launch the listener on this thread in order that a failure is thrown to the caller.
+	launchListener();
+
+	// Launch the first worker thread.
+	workers.emplace_back([this] { workerThreadFunction(0); });
 
-	// Wait until the listener launching thread has started.
+	// Wait until the first worker thread has started.
 	while (launched->load() != 1U) {
 		System::Sleep::milliSleep(10);
 	}
-- 
2.43.0


From 22a824afb7777448f799d2f99e1d57b06938424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:16 +0000
Subject: [PATCH 37/60] fix: text to number conversion accepts numbers that
 overflow the type

---
 .../cpp/Balau/Type/Impl/FromStringImpl.hpp    | 49 +++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
index 6ac0ba3..465d8a7 100644
--- a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
@@ -25,6 +25,9 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 
+#include <cerrno>
+#include <cmath>
+
 namespace Balau::Impl {
 
 // Checks that the string is not empty and throws a conversion exception if it is.
@@ -75,6 +78,30 @@ inline void validateIntegerConversion(const std::string & value, const char * st
 	}
 }
 
+// Checks that the integer conversion that has just been performed did not overflow (errno must have been cleared before the conversion).
+inline void validateIntegerRange(const std::string & value) {
+	using ::toString;
+
+	if (errno == ERANGE) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, toString("String to integer conversion of \"", value, "\" is out of bounds.")
+		);
+	}
+}
+
+// Checks that the floating point conversion that has just been performed did not overflow (errno must have been cleared before the conversion).
+template <typename T> void validateFloatingPointRange(const std::string & value, T n) {
+	using ::toString;
+
+	if (errno == ERANGE && std::isinf(n)) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, toString("String to floating point conversion of \"", value, "\" is out of bounds.")
+		);
+	}
+}
+
 template <typename DstT, typename SrcT> void checkLowerLimit(SrcT n) {
 	const SrcT lowerLimit = std::numeric_limits<DstT>::lowest();
 
@@ -124,8 +151,10 @@ inline long stringToLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s);
 	return n;
 }
 
@@ -133,8 +162,10 @@ inline long stringToLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s);
 	return n;
 }
 
@@ -142,8 +173,10 @@ inline long long stringToLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s);
 	return n;
 }
 
@@ -151,8 +184,10 @@ inline long long stringToLongLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s);
 	return n;
 }
 
@@ -160,8 +195,10 @@ inline unsigned long stringToUnsignedLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s);
 	return n;
 }
 
@@ -169,8 +206,10 @@ inline unsigned long stringToUnsignedLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s);
 	return n;
 }
 
@@ -178,8 +217,10 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s);
 	return n;
 }
 
@@ -187,8 +228,10 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value, int b
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s);
 	return n;
 }
 
@@ -196,8 +239,10 @@ inline float stringToFloat(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	float n = std::strtof(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateFloatingPointRange(s, n);
 	return n;
 }
 
@@ -205,8 +250,10 @@ inline double stringToDouble(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	double n = std::strtod(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateFloatingPointRange(s, n);
 	return n;
 }
 
@@ -214,8 +261,10 @@ inline long double stringToLongDouble(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long double n = std::strtold(s.c_str(), &strEnd);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateFloatingPointRange(s, n);
 	return n;
 }
 
-- 
2.43.0


From e13385f39b241573e632ee141650d9ef9174c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:44 +0000
Subject: [PATCH 38/60] fix: text to unsigned number conversion wraps negative
 numbers

---
 src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
index 465d8a7..fc0323d 100644
--- a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
@@ -67,6 +67,18 @@ inline void validateCharacter(char32_t c) {
 	}
 }
 
+// Checks that the text of an unsigned number is not negative (the C library functions accept and wrap negative numbers).
+inline void validateUnsignedValue(std::string_view value) {
+	using ::toString;
+
+	if (value.find('-') != std::string_view::npos) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, toString("String to unsigned integer conversion of \"", value, "\" failed.")
+		);
+	}
+}
+
 inline void validateIntegerConversion(const std::string & value, const char * strEnd) {
 	using ::toString;
 
@@ -193,6 +205,7 @@ inline long long stringToLongLong(std::string_view value, int base) {
 
 inline unsigned long stringToUnsignedLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
+	Impl::validateUnsignedValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
 	errno = 0;
@@ -204,6 +217,7 @@ inline unsigned long stringToUnsignedLong(std::string_view value) {
 
 inline unsigned long stringToUnsignedLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
+	Impl::validateUnsignedValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
 	errno = 0;
@@ -215,6 +229,7 @@ inline unsigned long stringToUnsignedLong(std::string_view value, int base) {
 
 inline unsigned long long stringToUnsignedLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
+	Impl::validateUnsignedValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
 	errno = 0;
@@ -226,6 +241,7 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value) {
 
 inline unsigned long long stringToUnsignedLongLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
+	Impl::validateUnsignedValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
 	errno = 0;
-- 
2.43.0


From badaab81403d61652bc2dd339a34416ff27c5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:56 +0000
Subject: [PATCH 39/60] fix: command line numeric options accept trailing
 characters and negative unsigned values

---
 .../cpp/Balau/Application/CommandLine.hpp     | 52 +++++++++++--------
 .../cpp/Balau/Type/Impl/FromStringImpl.hpp    |  1 +
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index ac706dd..9dd374a 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -27,6 +27,7 @@
 #define COM_BORA_SOFTWARE__BALAU_APPLICATION__COMMAND_LINE
 
 #include <Balau/Exception/CommandLineExceptions.hpp>
+#include <Balau/Type/FromString.hpp>
 #include <Balau/Type/StdTypes.hpp>
 #include <Balau/Util/Strings.hpp>
 
@@ -310,7 +311,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str) { return convert<int>(str); };
 		return getOptionAs<short, int>(key, "a short integer", parse);
 	}
 
@@ -321,7 +322,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return convert<unsigned long long>(str); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse);
 	}
 
@@ -332,7 +333,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str) { return convert<int>(str); };
 		return getOptionAs<int, int>(key, "an integer", parse);
 	}
 
@@ -343,7 +344,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return convert<unsigned long long>(str); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse);
 	}
 
@@ -354,7 +355,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str) { return convert<long long>(str); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse);
 	}
 
@@ -365,7 +366,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return convert<unsigned long long>(str); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse);
 	}
 
@@ -378,7 +379,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShortOrDefault(KeyT key, short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str) { return convert<int>(str); };
 		return getOptionAs<short, int>(key, "a short integer", parse, true, defaultValue);
 	}
 
@@ -389,7 +390,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShortOrDefault(KeyT key, unsigned short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return convert<unsigned long long>(str); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse, true, defaultValue);
 	}
 
@@ -400,7 +401,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsIntOrDefault(KeyT key, int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str) { return convert<int>(str); };
 		return getOptionAs<int, int>(key, "an integer", parse, true, defaultValue);
 	}
 
@@ -411,7 +412,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedIntOrDefault(KeyT key, unsigned int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return convert<unsigned long long>(str); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse, true, defaultValue);
 	}
 
@@ -422,7 +423,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLongOrDefault(KeyT key, long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str) { return convert<long long>(str); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse, true, defaultValue);
 	}
 
@@ -433,7 +434,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLongOrDefault(KeyT key, unsigned long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str) { return convert<unsigned long long>(str); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse, true, defaultValue);
 	}
 
@@ -446,7 +447,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloat(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str) { return convert<float>(str); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse);
 	}
 
@@ -457,7 +458,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDouble(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str) { return convert<double>(str); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse);
 	}
 
@@ -470,7 +471,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloatOrDefault(KeyT key, float defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str) { return convert<float>(str); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse, true, defaultValue);
 	}
 
@@ -481,7 +482,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDoubleOrDefault(KeyT key, double defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str) { return convert<double>(str); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse, true, defaultValue);
 	}
 
@@ -514,7 +515,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloat(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str) { return convert<float>(str); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index);
 	}
 
@@ -525,7 +526,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDouble(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str) { return convert<double>(str); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index);
 	}
 
@@ -549,7 +550,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloatOrDefault(float defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str) { return convert<float>(str); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -560,7 +561,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDoubleOrDefault(double defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str) { return convert<double>(str); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -772,6 +773,13 @@ template <typename KeyT> class CommandLine {
 		}
 	}
 
+	// Convert the whole of the supplied text.
+	private: template <typename T> static T convert(const std::string & str) {
+		T value;
+		::fromString(value, str);
+		return value;
+	}
+
 	//
 	// Option numeric conversion function.
 	//  - T is the required type.
@@ -800,7 +808,7 @@ template <typename KeyT> class CommandLine {
 		try {
 			const C value = parse(str);
 			return boost::numeric_cast<T>(value);
-		} catch (const std::invalid_argument &) {
+		} catch (const Exception::ConversionException &) {
 			using ::toString;
 
 			ThrowBalauException(Exception::OptionValueException
@@ -858,7 +866,7 @@ template <typename KeyT> class CommandLine {
 
 		try {
 			return parse(finalValues[index]);
-		} catch (const std::invalid_argument &) {
+		} catch (const Exception::ConversionException &) {
 			ThrowBalauException(
 				Exception::OptionValueException, std::string("Final value is not " + typeAsString + ": " + finalValues[index])
 			);
diff --git a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
index fc0323d..e12adb9 100644
--- a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
@@ -22,6 +22,7 @@
 #include <Balau/Exception/BalauException.hpp>
 #include <Balau/Type/Character.hpp>
 
+#include <boost/core/demangle.hpp>
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 
-- 
2.43.0


From 2b71b60e6f6e8f77e23888e534c0b617a1d7b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:23 +0000
Subject: [PATCH 40/60] fix: URI port accepts trailing and negative text

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index cf4a049..d0438b9 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -27,6 +27,7 @@
 #define COM_BORA_SOFTWARE__BALAU_RESOURCE__URI_COMPONENTS
 
 #include <Balau/Exception/ResourceExceptions.hpp>
+#include <Balau/Type/FromString.hpp>
 #include <Balau/Type/ToString.hpp>
 #include <Balau/Util/Strings.hpp>
 
@@ -327,13 +328,14 @@ struct UriComponents {
 
 		// Pre-convert the port into an unsigned short if it is set.
 		if (portOffset != -1) {
-			const unsigned long p = std::stoul(uri.substr((size_t) portOffset));
+			const size_t portEnd = pathOffset != -1 ? (size_t) pathOffset : uri.length();
+			const std::string port = uri.substr((size_t) portOffset, portEnd - (size_t) portOffset);
 
-			if (p > UINT16_MAX) {
-				ThrowBalauException(Exception::InvalidUriException, std::string("Invalid port number: ") + ::toString(p));
+			try {
+				::fromString(parsedPort, port);
+			} catch (const Exception::ConversionException &) {
+				ThrowBalauException(Exception::InvalidUriException, std::string("Invalid port number: ") + port);
 			}
-
-			parsedPort = (unsigned short) p;
 		} else {
 			parsedPort = (unsigned short) 0;
 		}
-- 
2.43.0


From e10b80a53a79a14843cfca0ae8875e41cb2932a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:38 +0000
Subject: [PATCH 41/60] fix: switch-equals command line reads past the last
 argument when a value is missing

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 9dd374a..7a1bd94 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -705,9 +705,9 @@ template <typename KeyT> class CommandLine {
 			const auto & option = optionsByKey.at(key);
 
 			if (option.hasValue) {
-				if (commandLineHasFinalValue == HasFinalValue::Yes && cleanedArgs.size() - m < 2) {
+				if (commandLineHasFinalValue == HasFinalValue::Yes && cleanedArgs.size() - m < 3) {
 					ThrowBalauException(Exception::MissingFinalValueException, "");
-				} else if (cleanedArgs.size() - m < 1) {
+				} else if (cleanedArgs.size() - m < 2) {
 					ThrowBalauException(Exception::MissingOptionValueException, optionSwitch);
 				}
 
-- 
2.43.0


From 16c35a06e91a2bdda1935a50953581f233aeb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:38 +0000
Subject: [PATCH 42/60] fix: command line final values accumulate over
 successive parse calls

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 7a1bd94..5d060bf 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -235,6 +235,7 @@ template <typename KeyT> class CommandLine {
 		using ::toString;
 
 		parsedValuesByKey.clear();
+		finalValues.clear();
 
 		if (args.empty() || (ignoreFirst && args.size() == 1)) {
 			if (commandLineHasFinalValue == HasFinalValue::Yes) {
-- 
2.43.0


From e4e71c64540b7ece9e2f804f0045e2287e7e2e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:38 +0000
Subject: [PATCH 43/60] fix: URL decoding reads past the end of the input

---
 src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 2241bfc..36bb004 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -127,7 +127,7 @@ struct UrlDecode {
 				case '%': {
 					std::string thisOutput;
 
-					while (input[index] == '%') {
+					while (index < input.length() && input[index] == '%') {
 						++index;
 
 						if (index == input.length()) {
-- 
2.43.0


From bfd07672712834fc4ec8920af6e9a1e5c411e662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:38 +0000
Subject: [PATCH 44/60] fix: assertion renderer reads the last character of an
 empty string

---
 src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
index f93d541..e643f1e 100644
--- a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
@@ -175,8 +175,8 @@ std::string render(const A & actual, const E & expected) {
 		expectedExtra = true;
 	}
 
-	const bool actualEndsWithNewline = actualString.back() == '\n';
-	const bool expectedEndsWithNewline = expectedString.back() == '\n';
+	const bool actualEndsWithNewline = !actualString.empty() && actualString.back() == '\n';
+	const bool expectedEndsWithNewline = !expectedString.empty() && expectedString.back() == '\n';
 
 	if (actualEndsWithNewline && actualExtra) {
 		builder << std::right << std::setw((int) maxLineNumberWidth) << toString(lineCount)
-- 
2.43.0


From 04d9078e3cff9f3dca99335f20a9b85f0aec32e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:39 +0000
Subject: [PATCH 45/60] fix: shortened logger namespace reads past an empty
 identifier

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 3defccd..bdf1b0f 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -156,7 +156,7 @@ std::string LoggingState::generateAbbreviatedNamespace(std::string_view loggerNa
 
 	if (!identifiers.empty()) {
 		for (size_t m = 0; m < identifiers.size() - 1; m++) {
-			builder << prefix << identifiers[m][0];
+			builder << prefix << identifiers[m].substr(0, 1);
 			prefix = ".";
 		}
 
-- 
2.43.0


From 6140ba3a116105ea241e1c21b0302a81a6a6872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:41 +0000
Subject: [PATCH 46/60] fix: a message of level NONE is never logged

---
 src/main/cpp/Balau/Logging/Logger.hpp         | 22 +++++++++----------
 .../Balau/Network/Utilities/BalauLogger.hpp   | 22 +++++++++----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.hpp b/src/main/cpp/Balau/Logging/Logger.hpp
index be72cfb..3de8445 100644
--- a/src/main/cpp/Balau/Logging/Logger.hpp
+++ b/src/main/cpp/Balau/Logging/Logger.hpp
@@ -271,7 +271,7 @@ class Logger {
 	/// Is logging at the specified level enabled for this logger.
 	///
 	public: bool enabled(LoggingLevel level) const {
-		return getLevel() >= level;
+		return level != LoggingLevel::NONE && getLevel() >= level;
 	}
 
 	/////////////////////////// Trace level logging ///////////////////////////
@@ -822,7 +822,7 @@ class Logger {
 	/// The error will be logged at the specified level if the level is enabled.
 	///
 	public: void log(LoggingLevel specifiedLevel, const char * message) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(SourceCodeLocation(), specifiedLevel, *this, message);
 		}
@@ -834,7 +834,7 @@ class Logger {
 	/// The error will be logged at the specified level if the level is enabled.
 	///
 	public: void log(LoggingLevel specifiedLevel, std::string_view message) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(SourceCodeLocation(), specifiedLevel, *this, message);
 		}
@@ -847,7 +847,7 @@ class Logger {
 	///
 	public: template <typename ... ObjectT>
 	void log(LoggingLevel specifiedLevel, const char * message, const ObjectT & ... object) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(SourceCodeLocation(), specifiedLevel, *this, message, LoggingSystem::makeStringVector(object ... ));
 		}
@@ -860,7 +860,7 @@ class Logger {
 	///
 	public: template <typename ... ObjectT>
 	void log(LoggingLevel specifiedLevel, std::string_view message, const ObjectT & ... object) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(SourceCodeLocation(), specifiedLevel, *this, message, LoggingSystem::makeStringVector(object ... ));
 		}
@@ -872,7 +872,7 @@ class Logger {
 	/// The error will be logged at the specified level if the level is enabled.
 	///
 	public: void log(LoggingLevel specifiedLevel, const std::function<std::string ()> & function) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			const std::string message = function();
 			logMessage(SourceCodeLocation(), specifiedLevel, *this, message);
@@ -885,7 +885,7 @@ class Logger {
 	/// The error will be logged at the specified level if the level is enabled.
 	///
 	public: void log(LoggingLevel specifiedLevel, const SourceCodeLocation & location, const char * message) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(location, specifiedLevel, *this, message);
 		}
@@ -897,7 +897,7 @@ class Logger {
 	/// The error will be logged at the specified level if the level is enabled.
 	///
 	public: void log(LoggingLevel specifiedLevel, const SourceCodeLocation & location, std::string_view message) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(location, specifiedLevel, *this, message);
 		}
@@ -910,7 +910,7 @@ class Logger {
 	///
 	public: template <typename ... ObjectT>
 	void log(LoggingLevel specifiedLevel, const SourceCodeLocation & location, const char * message, const ObjectT & ... object) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(location, specifiedLevel, *this, message, LoggingSystem::makeStringVector(object ... ));
 		}
@@ -923,7 +923,7 @@ class Logger {
 	///
 	public: template <typename ... ObjectT>
 	void log(LoggingLevel specifiedLevel, const SourceCodeLocation & location, std::string_view message, const ObjectT & ... object) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(location, specifiedLevel, *this, message, LoggingSystem::makeStringVector(object ... ));
 		}
@@ -935,7 +935,7 @@ class Logger {
 	/// The error will be logged at the specified level if the level is enabled.
 	///
 	public: void log(LoggingLevel specifiedLevel, const SourceCodeLocation & location, const std::function<std::string ()> & function) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			const std::string message = function();
 			logMessage(location, specifiedLevel, *this, message);
diff --git a/src/main/cpp/Balau/Network/Utilities/BalauLogger.hpp b/src/main/cpp/Balau/Network/Utilities/BalauLogger.hpp
index 0e4480c..99ab866 100644
--- a/src/main/cpp/Balau/Network/Utilities/BalauLogger.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/BalauLogger.hpp
@@ -112,7 +112,7 @@ class BalauLogger {
 	// Is logging at the specified level enabled for this logger.
 	//
 	public: bool enabled(LoggingLevel level) const {
-		return getLevel() >= level;
+		return level != LoggingLevel::NONE && getLevel() >= level;
 	}
 
 	/////////////////////////// Trace level logging ///////////////////////////
@@ -663,7 +663,7 @@ class BalauLogger {
 	// The error will be logged at the specified level if the level is enabled.
 	//
 	public: void log(LoggingLevel specifiedLevel, const char * message) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(SourceCodeLocation(), specifiedLevel,  message);
 		}
@@ -675,7 +675,7 @@ class BalauLogger {
 	// The error will be logged at the specified level if the level is enabled.
 	//
 	public: void log(LoggingLevel specifiedLevel, std::string_view message) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(SourceCodeLocation(), specifiedLevel, message);
 		}
@@ -688,7 +688,7 @@ class BalauLogger {
 	//
 	public: template <typename ... ObjectT>
 	void log(LoggingLevel specifiedLevel, const char * message, const ObjectT & ... object) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(SourceCodeLocation(), specifiedLevel, message, LoggingSystem::makeStringVector(object ... ));
 		}
@@ -701,7 +701,7 @@ class BalauLogger {
 	//
 	public: template <typename ... ObjectT>
 	void log(LoggingLevel specifiedLevel, std::string_view message, const ObjectT & ... object) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(SourceCodeLocation(), specifiedLevel, message, LoggingSystem::makeStringVector(object ... ));
 		}
@@ -713,7 +713,7 @@ class BalauLogger {
 	// The error will be logged at the specified level if the level is enabled.
 	//
 	public: void log(LoggingLevel specifiedLevel, const std::function<std::string ()> & function) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			const std::string message = function();
 			logMessage(SourceCodeLocation(), specifiedLevel, message);
@@ -726,7 +726,7 @@ class BalauLogger {
 	// The error will be logged at the specified level if the level is enabled.
 	//
 	public: void log(LoggingLevel specifiedLevel, const SourceCodeLocation & location, const char * message) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(location, specifiedLevel, message);
 		}
@@ -738,7 +738,7 @@ class BalauLogger {
 	// The error will be logged at the specified level if the level is enabled.
 	//
 	public: void log(LoggingLevel specifiedLevel, const SourceCodeLocation & location, std::string_view message) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(location, specifiedLevel, message);
 		}
@@ -751,7 +751,7 @@ class BalauLogger {
 	//
 	public: template <typename ... ObjectT>
 	void log(LoggingLevel specifiedLevel, const SourceCodeLocation & location, const char * message, const ObjectT & ... object) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(location, specifiedLevel, message, LoggingSystem::makeStringVector(object ... ));
 		}
@@ -764,7 +764,7 @@ class BalauLogger {
 	//
 	public: template <typename ... ObjectT>
 	void log(LoggingLevel specifiedLevel, const SourceCodeLocation & location, std::string_view message, const ObjectT & ... object) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			logMessage(location, specifiedLevel, message, LoggingSystem::makeStringVector(object ... ));
 		}
@@ -776,7 +776,7 @@ class BalauLogger {
 	// The error will be logged at the specified level if the level is enabled.
 	//
 	public: void log(LoggingLevel specifiedLevel, const SourceCodeLocation & location, const std::function<std::string ()> & function) const {
-		if (getLevel() >= specifiedLevel) {
+		if (enabled(specifiedLevel)) {
 			LoggingSystem::startLogAllocation();
 			const std::string message = function();
 			logMessage(location, specifiedLevel, message);
-- 
2.43.0


From 53c53a64c2552107a07a5f01a0ea3ef9859ebaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:29 +0000
Subject: [PATCH 47/60] fix: do not use the test report generator when no
 reports were requested

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index d4fc30e..fdd031c 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -307,7 +307,9 @@ class TestRunnerExecutor {
 							writer << " Group duration (core clock time) = " << durationStr(groupDuration) << "\n";
 
 							// Call the report generator for this completed test group.
-							reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							if (reportGenerator) {
+								reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							}
 
 							break;
 						}
-- 
2.43.0


From b365c8c1a42b9fdc63a3651a9bbb132d82163c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:30 +0000
Subject: [PATCH 48/60] fix: report the crash of the first test executed by a
 child process

---
 .../Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
index cb22811..0cec1c2 100644
--- a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
@@ -138,8 +138,9 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		// Check for previous failed test due to segfault of previous child process.
 		unsigned int testIndex = getCurrentTestIndex(childProcessIndex);
 
-		if (testIndex != 0) {
-			reportSegFaultedTest(pidStr, tests[testIndex]);
+		// The recorded value is one more than the index of the test (zero represents no test).
+		if (testIndex != 0 && testIndex <= tests.size()) {
+			reportSegFaultedTest(pidStr, tests[testIndex - 1]);
 		}
 
 		if (singleShot) {
@@ -208,7 +209,7 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 
 	private: unsigned int claimNextTestIndex(unsigned int childProcessIndex) {
 		unsigned int thisTestIndex = sharedState->nextTestIndex++;
-		sharedState->currentTestIndices[childProcessIndex] = thisTestIndex;
+		sharedState->currentTestIndices[childProcessIndex] = thisTestIndex + 1;
 		return thisTestIndex;
 	}
 };
-- 
2.43.0


From 9fdf823c543096e6acbd587c610655c67b825464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:41 +0000
Subject: [PATCH 49/60] fix: make the allocator version of the property token
 rendering compile

---
 src/main/cpp/Balau/Lang/Property/Lang/PropertyToken.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyToken.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyToken.hpp
index 03e6b58..cfa3b0c 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyToken.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyToken.hpp
@@ -119,7 +119,7 @@ inline std::string toString(const PropertyToken & token) {
 ///
 template <typename AllocatorT>
 inline Balau::U8String<AllocatorT> toString(const PropertyToken & token) {
-	return toString<AllocatorT>(toString(token));
+	return ::toString<AllocatorT>(toString(token));
 }
 
 } // namespace Balau::Lang::Css
-- 
2.43.0


From e89b2b08823a97cc52605d61c3a6a36e8cdeab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:31 +0000
Subject: [PATCH 50/60] fix: accept the last code point as a valid character

---
 src/main/cpp/Balau/Type/Character.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index b44c4ee..ec75c38 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -301,7 +301,7 @@ struct Character {
 	/////////////////////////////// Validation ////////////////////////////////
 
 	static bool isValid(char32_t c) {
-		return c < 0x10FFFF; // Maximum Unicode code point value.
+		return c <= 0x10FFFF; // Maximum Unicode code point value.
 	}
 
 	//////////////////////////////// Mutation /////////////////////////////////
-- 
2.43.0


From 9d2a1aead8ef2721d6c89859ff79c6304bc49858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:31 +0000
Subject: [PATCH 51/60] fix: do not scan beyond the end of malformed text

---
 .../cpp/Balau/Lang/Common/AbstractScanner.hpp | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index 7c175b2..479edde 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -97,9 +97,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if (!Character::isValid(currentChar)) {
 				ThrowBalauException(
 					  Exception::SyntaxErrorException
 					, "Invalid UTF-8 text found during parsing of string literal", calculateCurrentCodeSpan()
@@ -118,9 +118,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if (!Character::isValid(currentChar)) {
 				container.push_back(errorReport(calculateCurrentCodeSpan()));
 				return false;
 			}
@@ -134,15 +134,13 @@ template <typename TokenT> class AbstractScanner {
 			return;
 		}
 
-		if (currentEndOffset > 1) {
-			Character::retreatUtf8(text, currentEndOffset);
-			Character::retreatUtf8(text, currentEndOffset);
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
-		} else if (currentEndOffset == 1) {
-			Character::retreatUtf8(text, currentEndOffset);
+		Character::retreatUtf8Safe(text, currentEndOffset);
+
+		if (currentEndOffset > 0) {
+			Character::retreatUtf8Safe(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
+		} else { // The first character was put back.
 			currentChar = 0;
-		} else { // currentEndOffset == 0
-			// NOP
 		}
 	}
 
@@ -245,6 +243,10 @@ template <typename TokenT> class AbstractScanner {
 	}
 
 	protected: CodeSpan calculateCurrentCodeSpan() {
+		if (tokens.empty()) {
+			return CodeSpan(CodePosition(1, 1), CodePosition(1, 1)); // No token has been produced yet.
+		}
+
 		return RandomAccessScannedTokens<TokenT>::determineCodeSpan(
 			text, tokens, startOffsets, (unsigned int) tokens.size() - 1
 		);
-- 
2.43.0


From 6656e066b7466076ebf41c672447d13b20fe75e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:31 +0000
Subject: [PATCH 52/60] fix: do not read outside malformed UTF-8 strings in the
 string utilities

---
 src/main/cpp/Balau/Util/Strings.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Strings.hpp b/src/main/cpp/Balau/Util/Strings.hpp
index f9c96d0..88a5d17 100644
--- a/src/main/cpp/Balau/Util/Strings.hpp
+++ b/src/main/cpp/Balau/Util/Strings.hpp
@@ -395,7 +395,7 @@ struct Strings final {
 		size_t codePointCount = 0;
 
 		while (offset < (int32_t) str.length()) {
-			Character::advanceUtf8(str, offset);
+			Character::advanceUtf8Safe(str, offset);
 			++codePointCount;
 		}
 
@@ -423,7 +423,12 @@ struct Strings final {
 		int setOffset = 0;
 
 		while (getOffset < (int) s.length()) {
-			char32_t c = Character::getNextUtf8(s, getOffset);
+			char32_t c = Character::getNextUtf8Safe(s, getOffset);
+
+			if (!Character::isValid(c)) {
+				c = U'\uFFFD'; // Malformed input is replaced by the replacement character.
+			}
+
 			char32_t upper = Character::toUpper(c);
 
 			// Are all uppercase code points the same number of bytes as lowercase
@@ -469,7 +474,12 @@ struct Strings final {
 		int setOffset = 0;
 
 		while (getOffset < (int) s.length()) {
-			char32_t c = Character::getNextUtf8(s, getOffset);
+			char32_t c = Character::getNextUtf8Safe(s, getOffset);
+
+			if (!Character::isValid(c)) {
+				c = U'\uFFFD'; // Malformed input is replaced by the replacement character.
+			}
+
 			char32_t lower  = Character::toLower(c);
 
 			// Are all lowercase code points the same number of bytes as uppercase
@@ -716,14 +726,14 @@ struct Strings final {
 		int offset = 0;
 		int startPosition = offset;
 
-		while (offset < (int) input.length() && Character::isSpace(Character::getNextUtf8(input, offset))) {
+		while (offset < (int) input.length() && Character::isSpace(Character::getNextUtf8Safe(input, offset))) {
 			startPosition = offset;
 		}
 
 		offset = (int) input.length();
 		int endPosition = offset;
 
-		while (endPosition > 0 && Character::isSpace(Character::getPreviousUtf8(input, offset))) {
+		while (endPosition > 0 && Character::isSpace(Character::getPreviousUtf8Safe(input, offset))) {
 			endPosition = offset;
 		}
 
@@ -766,7 +776,7 @@ struct Strings final {
 		int offset = 0;
 		int startPosition = offset;
 
-		while (offset < (int) input.length() && Character::isSpace(Character::getNextUtf8(input, offset))) {
+		while (offset < (int) input.length() && Character::isSpace(Character::getNextUtf8Safe(input, offset))) {
 			startPosition = offset;
 		}
 
@@ -795,7 +805,7 @@ struct Strings final {
 		auto offset = (int) input.length();
 		int endPosition = offset;
 
-		while (endPosition > 0 && Character::isSpace(Character::getPreviousUtf8(input, offset))) {
+		while (endPosition > 0 && Character::isSpace(Character::getPreviousUtf8Safe(input, offset))) {
 			endPosition = offset;
 		}
 
-- 
2.43.0


From b4b683361fddb9fd1307f48505229ab5ed2c1448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:31 +0000
Subject: [PATCH 53/60] fix: do not read beyond the end of malformed URIs and
 paths

---
 .../Server/HttpWebApps/RedirectingHttpWebApp.cpp   |  2 +-
 src/main/cpp/Balau/Resource/UriComponents.hpp      | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
index fe1db5d..6b09605 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
@@ -180,7 +180,7 @@ std::vector<RedirectingHttpWebApp::PathComponent> RedirectingHttpWebApp::buildPa
 	char32_t c;
 
 	while (currentEndOffset < (int) path.length()) {
-		c = Character::getNextUtf8(path, currentEndOffset);
+		c = Character::getNextUtf8Safe(path, currentEndOffset);
 
 		if (!inVariable) {
 			if (c == '$') {
diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index d0438b9..b8a938c 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -168,7 +168,7 @@ struct UriComponents {
 		// of letters, digits, plus (+), period (.), or hyphen (-).
 		//
 
-		c = Character::getNextUtf8(uri, offset);
+		c = Character::getNextUtf8Safe(uri, offset);
 
 		if (!Character::isAlpha(c)) {
 			ThrowBalauException(
@@ -178,7 +178,7 @@ struct UriComponents {
 		}
 
 		while (offset < length) {
-			c = Character::getNextUtf8(uri, offset);
+			c = Character::getNextUtf8Safe(uri, offset);
 
 			if (c == U':') { // End of scheme.
 				break;
@@ -209,13 +209,13 @@ struct UriComponents {
 				pathOffset = short(offset);
 			} else {
 				while (offset < length) {
-					c = Character::getNextUtf8(uri, offset);
+					c = Character::getNextUtf8Safe(uri, offset);
 
 					if (hostOffset == -1 && c == U'[') { // [] enclosed IPv6 address.
 						hostOffset = short(offset - 1);
 
 						while (offset < length && c != U']') {
-							c = Character::getNextUtf8(uri, offset);
+							c = Character::getNextUtf8Safe(uri, offset);
 						}
 
 						if (c != U']') { // No closing ']'?
@@ -245,7 +245,7 @@ struct UriComponents {
 						portOffset = short(offset);
 
 						while (offset < length) {
-							c = Character::getNextUtf8(uri, offset);
+							c = Character::getNextUtf8Safe(uri, offset);
 
 							if (c == U'@') { // Deprecated password.
 								ThrowBalauException(
@@ -301,7 +301,7 @@ struct UriComponents {
 
 		// Mandatory path section.
 		while (offset < length) {
-			c = Character::getNextUtf8(uri, offset);
+			c = Character::getNextUtf8Safe(uri, offset);
 
 			if (c == U'?' || c == U'#') { // End of path.
 				break;
@@ -313,7 +313,7 @@ struct UriComponents {
 			queryOffset = short(offset);
 
 			while (offset < length) {
-				c = Character::getNextUtf8(uri, offset);
+				c = Character::getNextUtf8Safe(uri, offset);
 
 				if (c == U'#') { // End of query.
 					break;
-- 
2.43.0


From b080467f3d45c6d8a86cadc1b2866af67ec9b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:31 +0000
Subject: [PATCH 54/60] fix: copy malformed property text unchanged instead of
 encoding the invalid code point

---
 .../Balau/Lang/Property/Lang/PropertyAst.hpp  | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index 6d1b988..6f33167 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -98,12 +98,13 @@ class PropertyNode { // Abstract
 	///
 	public: static std::string normalise(std::string_view input) {
 		// The output string will be at most the same length as the input string.
-		std::string output = std::string(input);
+		std::string output;
+		output.reserve(input.length());
 		int inOffset = 0;
-		int outOffset = 0;
 		char32_t c;
 
 		while (inOffset < (int) input.length()) {
+			int startOffset = inOffset;
 			c = Character::getNextUtf8Safe(input, inOffset);
 
 			if (c == U'\\') {
@@ -111,27 +112,27 @@ class PropertyNode { // Abstract
 					break; // Last character is a backslash.
 				}
 
+				startOffset = inOffset;
 				c = Character::getNextUtf8Safe(input, inOffset);
 
 				switch (c) {
 					case U'\r':
 					case U'\n': {
-						skipLineContinuation(input, inOffset, output, outOffset);
+						skipLineContinuation(input, inOffset, output);
 						break;
 					}
 
 					default: {
-						Character::setUtf8AndAdvanceOffset(output, outOffset, c);
+						output.append(input, (size_t) startOffset, (size_t) (inOffset - startOffset));
 						break;
 					}
 				}
 
 			} else {
-				Character::setUtf8AndAdvanceOffset(output, outOffset, c);
+				output.append(input, (size_t) startOffset, (size_t) (inOffset - startOffset));
 			}
 		}
 
-		output.erase((size_t) outOffset);
 		return output;
 	}
 
@@ -150,12 +151,12 @@ class PropertyNode { // Abstract
 
 	private: static void skipLineContinuation(const std::string_view & input,
 	                                          int & inOffset,
-	                                          std::string & output,
-	                                          int & outOffset) {
+	                                          std::string & output) {
 		if (inOffset == (int) input.length()) {
 			return; // Last character pair is an escaped CR or LF.
 		}
 
+		int startOffset = inOffset;
 		char32_t c = Character::getNextUtf8Safe(input, inOffset);
 
 		if (c == U'\r' || c == U'\n') {
@@ -163,6 +164,7 @@ class PropertyNode { // Abstract
 				return; // Last character triplet is an escaped CRLF or LFCR.
 			}
 
+			startOffset = inOffset;
 			c = Character::getNextUtf8Safe(input, inOffset);
 		}
 
@@ -171,10 +173,11 @@ class PropertyNode { // Abstract
 				return; // End of string.
 			}
 
+			startOffset = inOffset;
 			c = Character::getNextUtf8Safe(input, inOffset);
 		}
 
-		Character::setUtf8AndAdvanceOffset(output, outOffset, c);
+		output.append(input, (size_t) startOffset, (size_t) (inOffset - startOffset));
 	}
 };
 
-- 
2.43.0


From a69f7e3f14a391e8f0a548a8047508d7efa559b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:31 +0000
Subject: [PATCH 55/60] fix: notice percent encoded text that is not valid
 UTF-8

---
 src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 36bb004..db0c7cd 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -165,9 +165,7 @@ struct UrlDecode {
 						int offset = 0;
 
 						while (offset != (int) thisOutput.length()) {
-							Character::getNextUtf8Safe(thisOutput, offset);
-
-							if (offset < 0) {
+							if (!Character::isValid(Character::getNextUtf8Safe(thisOutput, offset))) {
 								// Not valid UTF-8.
 								if (throwOnError) {
 									ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
-- 
2.43.0


From 5f9d060f3b28b4727a1fb147ece3d51131d9f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:13 +0000
Subject: [PATCH 56/60] fix: declare the injector's callback containers before
 the bindings whose creation fills them

---
 src/main/cpp/Balau/Application/Injector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 1b38d5d..5878f6d 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1735,14 +1735,14 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return builder.str();
 	}
 
-	// Main injector state.
-	private: const std::shared_ptr<const Injector> parent;
-	private: const std::shared_ptr<const Impl::BindingMap> bindings;
-
-	// Data structures for callbacks.
+	// Data structures for callbacks (declared first, as the creation of the bindings adds callbacks).
 	private: mutable std::list<std::function<void (const Injector& )>> postConstructionCalls;
 	private: mutable std::list<std::function<void ()>> preDestructionCalls;
 	private: mutable std::recursive_mutex callSync;
+
+	// Main injector state.
+	private: const std::shared_ptr<const Injector> parent;
+	private: const std::shared_ptr<const Impl::BindingMap> bindings;
 };
 
 } // namespace Balau
-- 
2.43.0


From 56a83885f3b1cecc199ed02c541ddb11fd90a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:13 +0000
Subject: [PATCH 57/60] fix: make registerStaticSingleton of
 ApplicationConfiguration compile and its registration take effect

---
 src/main/cpp/Balau/Application/ApplicationConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index ff5de47..d99c1ba 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -99,7 +99,7 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	/// @param name an optional binding name
 	///
 	protected: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		staticSingletonPostConstructionCalls.emplace_back(new StaticSingletonRegistration<T>(ptrPtr, name));
+		postConstructionCalls.push_back([ptrPtr, name = std::string(name)] (const auto & injector) { *ptrPtr = injector.template getShared<T>(name); });
 		preDestructionCalls.push_back([ptrPtr] () { ptrPtr->reset(); });
 	}
 
-- 
2.43.0


From 90b5965b1adfa04eca73e0b30579a11ffdb2a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:13 +0000
Subject: [PATCH 58/60] fix: end PrettyPrint::printHexBytes when no group size
 is given

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 7e0c408..4afda17 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -204,9 +204,12 @@ struct PrettyPrint final {
 	///
 	static std::string printHexBytes(const char * ptr, size_t byteCount, size_t lineLength = 0, size_t groupSize = 0) {
 		std::ostringstream builder;
-		const size_t groupsPerLine = calculateGroupsPerLine(lineLength, groupSize);
 
-		if (groupsPerLine == 0) {
+		// No groups: each line consists of one group that fills it.
+		const size_t bytesPerGroup = groupSize != 0 ? groupSize : lineLength / 2;
+		const size_t groupsPerLine = calculateGroupsPerLine(lineLength, bytesPerGroup);
+
+		if (bytesPerGroup == 0 || groupsPerLine == 0) {
 			// Return single line.
 
 			for (size_t m = 0; m < byteCount; m++) {
@@ -222,7 +225,7 @@ struct PrettyPrint final {
 
 		while (index < byteCount) {
 			for (size_t m = 0; m < groupsPerLine - 1; m++) {
-				for (size_t n = 0; n < groupSize; n++) {
+				for (size_t n = 0; n < bytesPerGroup; n++) {
 					if (index == byteCount) {
 						return builder.str();
 					}
@@ -233,7 +236,7 @@ struct PrettyPrint final {
 				builder << " ";
 			}
 
-			for (size_t n = 0; n < groupSize; n++) {
+			for (size_t n = 0; n < bytesPerGroup; n++) {
 				if (index == byteCount) {
 					return builder.str();
 				}
-- 
2.43.0


From c7192469cce41cc3989957521b7e88c821cd1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:13 +0000
Subject: [PATCH 59/60] fix: counting and replacing occurrences of an empty
 string ends

---
 src/main/cpp/Balau/Util/Impl/StringsImpl.hpp | 4 ++++
 src/main/cpp/Balau/Util/Strings.hpp          | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
index 4d5e42c..a20ec58 100644
--- a/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/StringsImpl.hpp
@@ -43,6 +43,10 @@ void replaceAllImpl(StringT<CharT, T ...> & input, const MatchT & match, const R
 		*count = 0;
 	}
 
+	if (matchLength == 0) {
+		return; // An empty string would be found at each position for ever.
+	}
+
 	while (true) {
 		pos = input.find(match, pos);
 
diff --git a/src/main/cpp/Balau/Util/Strings.hpp b/src/main/cpp/Balau/Util/Strings.hpp
index 88a5d17..f46751c 100644
--- a/src/main/cpp/Balau/Util/Strings.hpp
+++ b/src/main/cpp/Balau/Util/Strings.hpp
@@ -223,11 +223,16 @@ struct Strings final {
 	///
 	template <typename CharT, typename ... T, template <typename ...> class StringT, typename SubstrT>
 	static size_t occurrences(const StringT<CharT, T ...> & str, const SubstrT & substring) {
+		const size_t substringLength = Balau::Util::Impl::length(substring);
 		size_t index = 0;
 		size_t count = 0;
 
+		if (substringLength == 0) {
+			return 0; // An empty string would be found at the same position for ever.
+		}
+
 		while ((index = str.find(substring, index)) != StringT<CharT, T ...>::npos) {
-			index += Balau::Util::Impl::length(substring);
+			index += substringLength;
 			++count;
 		}
 
-- 
2.43.0


From 0fff950e78202863b79b7e24fc4b754e43cd5946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:05 +0000
Subject: [PATCH 60/60] fix: accept property comments that start with an
 exclamation mark

---
 src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index b71fab4..1031e57 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -388,7 +388,12 @@ class PropertyParser {
 	}
 
 	private: std::unique_ptr<AST::PropertyNode> produceComment() {
-		scannedTokens.expect(PropertyToken::Hash, "Bug? Expected hash token to begin comment production.");
+		if (scannedTokens.get().token == PropertyToken::Exclamation) {
+			scannedTokens.consume();
+		} else {
+			scannedTokens.expect(PropertyToken::Hash, "Bug? Expected hash or exclamation token to begin comment production.");
+		}
+
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
 		std::string_view text = token.text;
-- 
2.43.0

