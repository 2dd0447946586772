From 118df1a0f7df70e065bebe429f64a9332f6ecf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:50 +0000
Subject: [PATCH 01/23] fix: a build step that ends with an exception no longer
 blocks its dependents forever

---
 core/db/task_list.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index b53f714..2ef7ae5 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -95,6 +95,9 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 				                 task_results = m_results.get(),
 				                 at_exit = ScopeExitHandler{[&e]() { e.set(); }}]() mutable {
 					auto const index = task.node().id().value();
+					ScopeExitHandler no_result{[&result = task_results[index]]() {
+						if(result == TaskResult::Pending) { result = TaskResult::Failure; }
+					}};
 					if(auto result = task.runIfNecessary(force_recompilation, invoker); result)
 					{
 						auto const build_failed = failed(*result);
-- 
2.43.0


From 34c61cfd73f6b587d8e50a1071bf3c0977fbecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:20 +0000
Subject: [PATCH 02/23] fix: a command that reads its standard input to the end
 no longer hangs

---
 core/exec/execve.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index a634dd4..76088a6 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -27,7 +27,7 @@ namespace
 		Pipe()
 		{
 			int fds[2];
-			if(pipe(fds) == -1) { throw "Failed to create pipe"; }
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw "Failed to create pipe"; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
@@ -132,12 +132,13 @@ namespace
 
 
 	Maike::Exec::ExitStatus communicateWith(
-	   pid_t pid, Maike::Io::Redirector const& io_redirector, int stdin, int stdout, int stderr)
+	   pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin, int stdout, int stderr)
 	{
 		signal(SIGPIPE, SIG_IGN);
 		std::thread stderr_proc{read, io_redirector.handle(), stderr, io_redirector.stderr()};
 		std::thread stdout_proc{read, io_redirector.handle(), stdout, io_redirector.stdout()};
-		write(io_redirector.handle(), stdin, io_redirector.stdin());
+		write(io_redirector.handle(), stdin.writeEnd(), io_redirector.stdin());
+		stdin.closeWriteEnd();
 
 		int status;
 		if(::waitpid(pid, &status, 0) == -1) { abort(); }
@@ -224,7 +225,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	stdout.closeWriteEnd();
 	stderr.closeWriteEnd();
 
-	return communicateWith(pid, io_redirector, stdin.writeEnd(), stdout.readEnd(), stderr.readEnd());
+	return communicateWith(pid, io_redirector, stdin, stdout.readEnd(), stderr.readEnd());
 }
 
 namespace
-- 
2.43.0


From a9a3aa3f40014f1c2c8d959f28b9287fd1ce6e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:22 +0000
Subject: [PATCH 03/23] fix: a command that could not be launched leaves no
 zombie behind

---
 core/exec/execve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index 76088a6..f242bcb 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -213,6 +213,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	uint32_t val{};
 	if(auto n = exec_err.read(&val, sizeof(val)); n == sizeof(val))
 	{
+		::waitpid(pid, nullptr, 0);
 		errno = val;
 		std::string msg{"Failed to launch '"};
 		msg += executable;
-- 
2.43.0


From ce9a6ae7574de91efccd5e975e82d7a2b6592a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:23 +0000
Subject: [PATCH 04/23] fix: recipe output that does not fit in one read is no
 longer read from its beginning again

---
 core/db/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/db/compiler.cpp b/core/db/compiler.cpp
index 7aa9e8f..fe3c618 100644
--- a/core/db/compiler.cpp
+++ b/core/db/compiler.cpp
@@ -47,6 +47,7 @@ namespace
 		auto const bytes_left = std::size(reader.buffer.get()) - reader.read_offset;
 		auto const bytes_to_read = std::min(n, bytes_left);
 		memcpy(output, reader.buffer.get().data() + reader.read_offset, bytes_to_read);
+		reader.read_offset += bytes_to_read;
 
 		return bytes_to_read;
 	}
-- 
2.43.0


From e9053855b7d4cdcd9ebe2b2b0109dea0236fd840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:23 +0000
Subject: [PATCH 05/23] fix: JSON input that ends early is rejected instead of
 being taken as empty

---
 core/key_value_store/json_handle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index eaf5906..b14a4d8 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -42,7 +42,7 @@ namespace
 			while(n_written != n)
 			{
 				auto ch_in = m_buffer.getchar();
-				if(ch_in == -1) { return 0; }
+				if(ch_in == -1) { break; }
 
 				*buffer = static_cast<std::byte>(ch_in);
 				++buffer;
-- 
2.43.0


From 1893faa7e220c8cde180ab4e7855d186a93d5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:23 +0000
Subject: [PATCH 06/23] fix: printed commands are quoted the way the shell
 reads them

---
 core/exec/command.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index bf14826..40012f2 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -12,7 +12,7 @@ namespace
 	{
 		std::string ret{"'"};
 		std::for_each(std::begin(str), std::end(str), [&ret](auto ch_in) {
-			if(ch_in == '\\' || ch_in == '\'') { ret += '\\'; }
+			if(ch_in == '\'') { ret += "'\\'"; }
 			ret += ch_in;
 		});
 		ret += "'";
-- 
2.43.0


From d0922591ab4d6da8faf329273ba740df2dcef031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:23 +0000
Subject: [PATCH 07/23] fix: an input file is not closed twice

---
 core/io/input_file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/io/input_file.hpp b/core/io/input_file.hpp
index 36880ce..fa9e82f 100644
--- a/core/io/input_file.hpp
+++ b/core/io/input_file.hpp
@@ -47,6 +47,7 @@ namespace Maike::Io
 		void reset()
 		{
 			if(m_handle != -1) { close(m_handle); }
+			m_handle = -1;
 		}
 
 		int get() const
-- 
2.43.0


From 1e3459af7bc5a5cdc9f64b2821471f466ccf704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:52 +0000
Subject: [PATCH 08/23] fix: no read after the end of JSON input

---
 core/key_value_store/json_handle.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index b14a4d8..6329bec 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -31,7 +31,7 @@ namespace
 	class ReadHelper
 	{
 	public:
-		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}
+		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}, m_at_end{false}
 		{
 		}
 
@@ -39,10 +39,14 @@ namespace
 		{
 			size_t n_written = 0;
 			auto const buffer_init = buffer;
-			while(n_written != n)
+			while(n_written != n && !m_at_end)
 			{
 				auto ch_in = m_buffer.getchar();
-				if(ch_in == -1) { break; }
+				if(ch_in == -1)
+				{
+					m_at_end = true;
+					break;
+				}
 
 				*buffer = static_cast<std::byte>(ch_in);
 				++buffer;
@@ -64,6 +68,7 @@ namespace
 	private:
 		Maike::Io::InputBuffer<Maike::Io::Reader> m_buffer;
 		bool m_has_data;
+		bool m_at_end;
 	};
 }
 
-- 
2.43.0


From a439901af15032bbc2785406325999eefd148685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 09/23] fix: the C++ scanner finds the end of comments

---
 .../cxx/source_file_loader.cpp                | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5a8dfee..3ac4bb4 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -30,6 +30,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	{
 		Newline,
 		CommentFirst,
+		CommentLine,
 		SkipLine,
 		CommentBlock,
 		CommentBlockPreEnd,
@@ -82,12 +83,17 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
+					case '/': state = State::CommentLine; break;
 					case '\n': state = State::Newline; break;
 
 					default: state = State::SkipLine;
 				}
 				break;
 
+			case State::CommentLine:
+				if(ch_in == '\n') { state = State::Newline; }
+				break;
+
 			case State::SkipLine:
 				switch(ch_in)
 				{
@@ -113,6 +119,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n': state = State::CommentBlock; break;
 					default: state = State::CommentBlock; break;
 				}
@@ -259,6 +266,7 @@ void Cxx::SourceFileLoader::filterInput(
 		CommentBlock,
 		CommentBlockPreEnd,
 		CommentFirstSkipLine,
+		CommentLine,
 		RawStringBegin,
 		RawStringTag,
 		RawString,
@@ -329,7 +337,15 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					default: state = State::SkipLine; break;
+					default: state = State::CommentLine; break;
+				}
+				break;
+
+			case State::CommentLine:
+				if(ch_in == '\n')
+				{
+					state = State::Newline;
+					tags.putchar('\n');
 				}
 				break;
 
@@ -367,6 +383,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n':
 						state = State::CommentBlock;
 						tags.putchar('\n');
@@ -379,6 +396,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
+					case '/': state = State::CommentLine; break;
 					case '\n':
 						state = State::Newline;
 						tags.putchar('\n');
-- 
2.43.0


From 7e5ca0905cfd2045f839b62e36e7750523f89dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 10/23] fix: the C++ scanner finds the end of raw string
 literals

---
 .../cxx/source_file_loader.cpp                         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 3ac4bb4..5785c07 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -158,7 +158,12 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						break;
 
-					case '\n': state = State::RawString; break;
+					case ')': raw_string_end_mark.clear(); break;
+
+					case '\n':
+						state = State::RawString;
+						raw_string_end_mark.clear();
+						break;
 
 					default: raw_string_end_mark += ch_in;
 				}
@@ -445,8 +450,11 @@ void Cxx::SourceFileLoader::filterInput(
 						raw_string_end_mark.clear();
 						break;
 
+					case ')': raw_string_end_mark.clear(); break;
+
 					case '\n':
 						state = State::RawString;
+						raw_string_end_mark.clear();
 						tags.putchar('\n');
 						break;
 
-- 
2.43.0


From f9ee3710d50317d82a90c0673c35049791603a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 11/23] fix: only complete include directives yield
 dependencies

---
 .../cxx/source_file_loader.cpp                  | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5785c07..ac91d3b 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -186,8 +186,13 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '"':
 						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
 						break;
+					case '\n': state = State::Newline; break;
 					default:
-						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
+						if(ch_in >= '\0' && ch_in <= ' ')
+						{
+							state = preproc_directive == "include" ? State::PreprocessorDirectivePreArg
+							                                       : State::SkipLine;
+						}
 						else
 						{
 							preproc_directive += ch_in;
@@ -228,7 +233,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						break;
 					}
 
-					case '\n': state = State::Newline; break;
+					case '\n':
+						state = State::Newline;
+						include_path.clear();
+						break;
 
 					default: include_path += ch_in; break;
 				}
@@ -244,7 +252,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						                                     std::vector<Maike::Db::Property>{}});
 						break;
 
-					case '\n': state = State::Newline; break;
+					case '\n':
+						state = State::Newline;
+						include_path.clear();
+						break;
 
 					default: include_path += ch_in; break;
 				}
-- 
2.43.0


From d48e6e38b49ef0d5fbadddbb806c84419f4a1aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:59 +0000
Subject: [PATCH 12/23] fix: an empty directive does not hide the next line
 from the C++ scanner

---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index ac91d3b..ae66972 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -170,7 +170,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				break;
 
 			case State::PrePreprocessorDirective:
-				if(!(ch_in >= '\0' && ch_in <= ' '))
+				if(ch_in == '\n') { state = State::Newline; }
+				else if(!(ch_in >= '\0' && ch_in <= ' '))
 				{
 					preproc_directive += ch_in;
 					state = State::PreprocessorDirective;
-- 
2.43.0


From f599be8f75bc883228f5f7ca934455b67ebef426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:18 +0000
Subject: [PATCH 13/23] fix: report a failure to create a pipe with an
 exception that is caught

The constructor of Pipe threw a string literal. Nothing but the thread pool
catches such an exception, so running out of file descriptors while loading a
project or starting a recipe aborted the program.
---
 core/exec/execve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index f242bcb..31fffe9 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -17,6 +17,7 @@
 #include <thread>
 #include <cstddef>
 #include <mutex>
+#include <stdexcept>
 #include <array>
 
 namespace
@@ -27,7 +28,7 @@ namespace
 		Pipe()
 		{
 			int fds[2];
-			if(pipe2(fds, O_CLOEXEC) == -1) { throw "Failed to create pipe"; }
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw std::runtime_error{"Failed to create pipe"}; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
-- 
2.43.0


From d37d07eae1f4bd61e5c4569efc97ad589c87cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:46 +0000
Subject: [PATCH 14/23] fix: report values that cannot be stored in a JSON
 object or array

A value that is not valid UTF-8 was silently left out, so that a recipe for a
file with such a name was run without being told about its source file or
dependencies.
---
 core/key_value_store/array.hpp    | 10 ++++++++--
 core/key_value_store/compound.hpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/key_value_store/array.hpp b/core/key_value_store/array.hpp
index f8a00d6..758044d 100644
--- a/core/key_value_store/array.hpp
+++ b/core/key_value_store/array.hpp
@@ -132,14 +132,14 @@ namespace Maike::KeyValueStore
 		template<class T>
 		Array& append(T&& value) &
 		{
-			(void)json_array_append_new(m_handle.handle(), toJson(std::forward<T>(value)).release());
+			storeValue(toJson(std::forward<T>(value)));
 			return *this;
 		}
 
 		template<class T>
 		Array&& append(T&& value) &&
 		{
-			(void)json_array_append_new(m_handle.handle(), toJson(std::forward<T>(value)).release());
+			storeValue(toJson(std::forward<T>(value)));
 			return std::move(*this);
 		}
 
@@ -171,6 +171,12 @@ namespace Maike::KeyValueStore
 
 	private:
 		JsonHandle m_handle;
+
+		void storeValue(JsonHandle&& value)
+		{
+			if(json_array_append_new(m_handle.handle(), value.release()) != 0)
+			{ throw std::runtime_error{"Failed to append a value to an array"}; }
+		}
 	};
 
 	inline JsonHandle toJson(Array array)
diff --git a/core/key_value_store/compound.hpp b/core/key_value_store/compound.hpp
index aac013c..66a3b6a 100644
--- a/core/key_value_store/compound.hpp
+++ b/core/key_value_store/compound.hpp
@@ -146,14 +146,14 @@ namespace Maike::KeyValueStore
 		template<class T>
 		Compound& set(char const* key, T&& value) &
 		{
-			(void)json_object_set_new(m_handle.handle(), key, toJson(std::forward<T>(value)).release());
+			storeValue(key, toJson(std::forward<T>(value)));
 			return *this;
 		}
 
 		template<class T>
 		Compound&& set(char const* key, T&& value) &&
 		{
-			(void)json_object_set_new(m_handle.handle(), key, toJson(std::forward<T>(value)).release());
+			storeValue(key, toJson(std::forward<T>(value)));
 			return std::move(*this);
 		}
 
@@ -213,6 +213,12 @@ namespace Maike::KeyValueStore
 
 	private:
 		JsonHandle m_handle;
+
+		void storeValue(char const* key, JsonHandle&& value)
+		{
+			if(json_object_set_new(m_handle.handle(), key, value.release()) != 0)
+			{ throw std::runtime_error{std::string{"Failed to store a value for key `"} + key + "`"}; }
+		}
 	};
 
 	inline JsonHandle toJson(Compound&& compound)
-- 
2.43.0


From 0d7812817e847c42aff214f340eb7af451011d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 15/23] fix: the beginning of an option name is not taken for
 the option

---
 core/cmd_line_parser/command_line.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/cmd_line_parser/command_line.cpp b/core/cmd_line_parser/command_line.cpp
index 46a664e..752b844 100644
--- a/core/cmd_line_parser/command_line.cpp
+++ b/core/cmd_line_parser/command_line.cpp
@@ -71,12 +71,12 @@ uint64_t Maike::CmdLineParser::detail::collect_options(char const* const* argv_b
 		auto const str_end = str + l;
 		auto splitpoint = std::find(str, str_end, '=');
 
-		auto x = binaryFind(optitems_begin,
-		                    optitems_end,
-		                    str,
-		                    CompareOptItemsByName{static_cast<size_t>(splitpoint - str)});
+		auto const name_length = static_cast<size_t>(splitpoint - str);
+		auto x =
+		   binaryFind(optitems_begin, optitems_end, str, CompareOptItemsByName{name_length});
 
-		if(x == optitems_end)
+		// The comparison above ignores what follows after the first name_length characters
+		if(x == optitems_end || strlen(x->name) != name_length)
 		{ throw std::runtime_error{std::string{"Invalid command line option "} + str}; }
 
 		set_vals |= x->converter(tuple, splitpoint == str_end ? "" : splitpoint + 1);
-- 
2.43.0


From 24b360f0ad737e10a56dfe0fb92b4dfa79d6509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 16/23] fix: log output of a command that contains zero bytes

---
 core/db/compilation_log.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index 6708e9f..afb161f 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -75,8 +75,8 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task,
 	append_log(stdout_buff, result.stdout());
 
 	std::lock_guard lock{m_output_mutex};
-	fputs(stdout_buff.c_str(), stdout);
-	fputs(stderr_buff.c_str(), stderr);
+	fwrite(std::data(stdout_buff), 1, std::size(stdout_buff), stdout);
+	fwrite(std::data(stderr_buff), 1, std::size(stderr_buff), stderr);
 	return *this;
 }
 
@@ -105,7 +105,7 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task)
 	stdout_buff += '\n';
 
 	std::lock_guard lock{m_output_mutex};
-	fputs(stdout_buff.c_str(), stdout);
+	fwrite(std::data(stdout_buff), 1, std::size(stdout_buff), stdout);
 	return *this;
 }
 
-- 
2.43.0


From 39f247899078ce1723b7f177c16b5efb11924c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 17/23] fix: use the value of --list-targets when targets are
 listed

---
 core/bin/maike.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 1bac001..ef1d0a0 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -366,7 +366,7 @@ int main(int argc, char** argv)
 		{
 			printTargets(src_tree.targets(),
 			             build_info.targetDir(),
-			             cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
+			             cmdline.option<Maike::CmdLineOption::ListTargets>());
 			return 0;
 		}
 
-- 
2.43.0


From 3c897abef97c4decd7e588d0e0aee15e80211b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 18/23] fix: reject thread counts that are not integers or are
 too large

---
 core/sched/thread_count.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/sched/thread_count.cpp b/core/sched/thread_count.cpp
index 1b10edd..2cfac7f 100644
--- a/core/sched/thread_count.cpp
+++ b/core/sched/thread_count.cpp
@@ -4,8 +4,10 @@
 
 #include "./thread_count.hpp"
 
+#include <cerrno>
 #include <cstring>
 #include <cstdlib>
+#include <limits>
 #include <stdexcept>
 
 std::string Maike::ThreadCount::toString() const
@@ -20,8 +22,11 @@ Maike::ThreadCount::ThreadCount(char const* str)
 	if(strcmp(str, "auto") == 0) { m_val = -1; }
 	else
 	{
-		m_val = atoi(str);
-		if(m_val < 1)
+		char* end;
+		errno = 0;
+		auto const val = strtol(str, &end, 10);
+		if(end == str || *end != '\0' || errno != 0 || val < 1 || val > std::numeric_limits<int>::max())
 		{ throw std::runtime_error{"ThreadCount must be an integer greater than zero, or auto"}; }
+		m_val = static_cast<int>(val);
 	}
 }
-- 
2.43.0


From 26103111b7e712df34eec42f320550ab2e46e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 19/23] fix: reject build ids that do not consist of 64 digits

---
 core/build/id.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/build/id.cpp b/core/build/id.cpp
index 4970618..0e8c0db 100644
--- a/core/build/id.cpp
+++ b/core/build/id.cpp
@@ -35,7 +35,9 @@ Maike::Build::Id::Id(char const* cstr): m_bytes{}
 	while(true)
 	{
 		auto ch_in = *cstr;
-		if(ch_in == '\0' || k == 64) { return; }
+		if(ch_in == '\0' && k == 64) { return; }
+		if(ch_in == '\0' || k == 64)
+		{ throw std::runtime_error{"A BuildId must consist of 64 hexadecimal digits"}; }
 
 		auto nibble = to_nibble(ch_in);
 
-- 
2.43.0


From 5c98f4b02aaa1268499979db6e3bfa1a21740a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:52 +0000
Subject: [PATCH 20/23] fix: report a failing command in the generic recipe

---
 recipes/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/generic.py b/recipes/generic.py
index c654226..179a02c 100755
--- a/recipes/generic.py
+++ b/recipes/generic.py
@@ -42,7 +42,7 @@ if __name__ == '__main__':
 		if sys.argv[1] == 'configure':
 			exit(0)
 		if sys.argv[1] == 'compile':
-			compile(args);
+			exit(compile(args))
 	except Exception as e:
 		print(e, file=sys.stderr)
 		exit(-1)
\ No newline at end of file
-- 
2.43.0


From bc46a45a41eef9d8bc5a9c5ad1299836de6ac7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:52 +0000
Subject: [PATCH 21/23] fix: report a failing pandoc in the markdown recipe

---
 recipes/md2htmlpart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recipes/md2htmlpart.py b/recipes/md2htmlpart.py
index ca4f51a..3f1b0f9 100755
--- a/recipes/md2htmlpart.py
+++ b/recipes/md2htmlpart.py
@@ -17,6 +17,9 @@ def find_elements(node, element, result):
 def convert(src_file, target):
 	pandoc_res = subprocess.run(['pandoc', '-f', 'markdown', '-t', 'html', '--section-divs', src_file], text=True, stdout=subprocess.PIPE)
 
+	if pandoc_res.returncode != 0:
+		return pandoc_res.returncode
+
 	doc = '<content>' + pandoc_res.stdout + '</content>'
 
 	root = ET.fromstring(doc)
-- 
2.43.0


From 05f75f14fa38827f4d215457fb4111a1b93ae2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 22/23] fix: give the compiler every configured flag

---
 recipes/cxx_compiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 0d3f384..07fbbe4 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -29,7 +29,6 @@ def format_iquote(src_dir, target_dir, dirs):
 
 def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependencies):
 	tmp = []
-	tmp.extend(compiler_flags['cflags'])
 	iquote = []
 	if src_file_dir != '':
 		iquote.append(os.path.relpath(src_file_dir, src_dir))
@@ -41,7 +40,7 @@ def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependenci
 		elif 'rel' in item and item['rel'] == 'include':
 			tmp.append('-include%s'%item['ref'])
 
-	return list(dict.fromkeys(tmp))
+	return compiler_flags['cflags'] + list(dict.fromkeys(tmp))
 
 def get_actions(compiler_cfg):
 	ret = set()
-- 
2.43.0


From 92c7467028cde7f3eefaed566e3080616928f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 23/23] fix: accept a latest standard revision without an
 earliest one

---
 recipes/cxx_compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 07fbbe4..2351f3d 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -147,7 +147,7 @@ def select_cpp_rev(compiler, rev):
 	else:
 		if 'max' in rev:
 			default_rev = get_cpp_revision_tag(compiler)
-			if default_rev > max_num:
+			if default_rev > get_numeric_rev(rev['max']):
 				return rev['max']
 			return ''
 		return ''
-- 
2.43.0

