From afb4bbff4638638878fefcb0324125aa5c3e3614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 01/17] fix: recognize the end of a block comment that ends
 with **/

The second asterisk took the scanner back into the comment, so that the rest
of the file was taken for a comment.
---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5a8dfee..5e6c94a 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -113,6 +113,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n': state = State::CommentBlock; break;
 					default: state = State::CommentBlock; break;
 				}
@@ -367,6 +368,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n':
 						state = State::CommentBlock;
 						tags.putchar('\n');
-- 
2.43.0


From 360fc4cbe36991b8c05f4e60424295c05c7ba2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 02/17] fix: do not look for comments and raw strings inside
 line comments

A line comment such as `// src/*.cpp` started a block comment.
---
 .../cxx/source_file_loader.cpp                 | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5e6c94a..b251a4d 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -30,6 +30,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	{
 		Newline,
 		CommentFirst,
+		LineComment,
 		SkipLine,
 		CommentBlock,
 		CommentBlockPreEnd,
@@ -81,6 +82,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::CommentFirst:
 				switch(ch_in)
 				{
+					case '/': state = State::LineComment; break;
 					case '*': state = State::CommentBlock; break;
 					case '\n': state = State::Newline; break;
 
@@ -88,6 +90,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				}
 				break;
 
+			case State::LineComment:
+				if(ch_in == '\n') { state = State::Newline; }
+				break;
+
 			case State::SkipLine:
 				switch(ch_in)
 				{
@@ -256,6 +262,7 @@ void Cxx::SourceFileLoader::filterInput(
 		CommentFirst,
 		TagSymbol,
 		Tag,
+		LineComment,
 		SkipLine,
 		CommentBlock,
 		CommentBlockPreEnd,
@@ -330,7 +337,15 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					default: state = State::SkipLine; break;
+					default: state = State::LineComment; break;
+				}
+				break;
+
+			case State::LineComment:
+				if(ch_in == '\n')
+				{
+					state = State::Newline;
+					tags.putchar('\n');
 				}
 				break;
 
@@ -380,6 +395,7 @@ void Cxx::SourceFileLoader::filterInput(
 			case State::CommentFirstSkipLine:
 				switch(ch_in)
 				{
+					case '/': state = State::LineComment; break;
 					case '*': state = State::CommentBlock; break;
 					case '\n':
 						state = State::Newline;
-- 
2.43.0


From 81c264182bbe37cc648dc58d5ca9549368f3552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 03/17] fix: recognize the end of a raw string after an earlier
 parenthesis

In `R"(f())"`, the first `)` made the scanner collect `)` as part of the end
mark. Likewise, the characters after a `)` at the end of a line were kept.
---
 .../cxx/source_file_loader.cpp                         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index b251a4d..ad4015d 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -158,7 +158,12 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						break;
 
-					case '\n': state = State::RawString; break;
+					case ')': raw_string_end_mark.clear(); break;
+
+					case '\n':
+						state = State::RawString;
+						raw_string_end_mark.clear();
+						break;
 
 					default: raw_string_end_mark += ch_in;
 				}
@@ -445,8 +450,11 @@ void Cxx::SourceFileLoader::filterInput(
 						raw_string_end_mark.clear();
 						break;
 
+					case ')': raw_string_end_mark.clear(); break;
+
 					case '\n':
 						state = State::RawString;
+						raw_string_end_mark.clear();
 						tags.putchar('\n');
 						break;
 
-- 
2.43.0


From 6ba806785e5b281db9bc9a804a68153db16804ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 04/17] fix: end a preprocessor directive without arguments at
 the end of its line

An include directive on the line after `#else` or `#endif` was overlooked.
---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index ad4015d..d0c1920 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -170,7 +170,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				break;
 
 			case State::PrePreprocessorDirective:
-				if(!(ch_in >= '\0' && ch_in <= ' '))
+				if(ch_in == '\n') { state = State::Newline; }
+				else if(!(ch_in >= '\0' && ch_in <= ' '))
 				{
 					preproc_directive += ch_in;
 					state = State::PreprocessorDirective;
@@ -186,6 +187,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '"':
 						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
 						break;
+					case '\n': state = State::Newline; break;
 					default:
 						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
 						else
-- 
2.43.0


From 9a0f82d32fd02aa6965e7a6384a2f983fcbd155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 05/17] fix: take only include directives for dependencies

`#error "message"` became a dependency on the file `message`.
---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index d0c1920..91b97a4 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -203,9 +203,13 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '\n': state = State::Newline; break;
 
-					case '"': state = State::IncludeProject; break;
+					case '"':
+						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						break;
 
-					case '<': state = State::IncludeSystem; break;
+					case '<':
+						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
+						break;
 
 					default:
 						if(!(ch_in >= '\0' && ch_in <= ' '))
-- 
2.43.0


From 1e2608b4cbb169d7a4318f7c92923288ca1366fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 06/17] fix: forget the path of an unterminated include
 directive

It was put in front of the path of the next include directive.
---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 91b97a4..d356fc1 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -71,6 +71,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '#':
 						state = State::PrePreprocessorDirective;
 						preproc_directive.clear();
+						include_path.clear();
 						break;
 
 					default:
-- 
2.43.0


From 6ab99f10cadfb9807b73a4d575eef844a13dc2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 07/17] fix: recognize a comment right after a directive or
 after the letter R

With `#else /* ...` and `FOR/* ...`, the comment was taken for code.
---
 core/source_file_info_loaders/cxx/source_file_loader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index d356fc1..8aa173d 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -130,6 +130,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '"': state = State::RawStringTag; break;
+					case '/': state = State::CommentFirst; break;
 					case '\n': state = State::Newline; break;
 					default: state = State::SkipLine;
 				}
@@ -189,6 +190,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
 						break;
 					case '\n': state = State::Newline; break;
+					case '/': state = State::CommentFirst; break;
 					default:
 						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
 						else
@@ -204,6 +206,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '\n': state = State::Newline; break;
 
+					case '/': state = State::CommentFirst; break;
+
 					case '"':
 						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
 						break;
@@ -421,6 +425,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '"': state = State::RawStringTag; break;
+					case '/': state = State::CommentFirstSkipLine; break;
 					case '\n':
 						state = State::Newline;
 						tags.putchar('\n');
-- 
2.43.0


From faa871076c6547e75d9d3966897134ec8edfc0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 08/17] fix: pass the last bytes of a JSON stream on to the
 parser

The bytes read since the last delimiter were dropped at the end of the stream,
so that a truncated document could be taken for an empty one.
---
 core/key_value_store/json_handle.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index eaf5906..186f12f 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -31,7 +31,7 @@ namespace
 	class ReadHelper
 	{
 	public:
-		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}
+		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}, m_eof{false}
 		{
 		}
 
@@ -39,10 +39,14 @@ namespace
 		{
 			size_t n_written = 0;
 			auto const buffer_init = buffer;
-			while(n_written != n)
+			while(n_written != n && !m_eof)
 			{
 				auto ch_in = m_buffer.getchar();
-				if(ch_in == -1) { return 0; }
+				if(ch_in == -1)
+				{
+					m_eof = true;
+					break;
+				}
 
 				*buffer = static_cast<std::byte>(ch_in);
 				++buffer;
@@ -64,6 +68,7 @@ namespace
 	private:
 		Maike::Io::InputBuffer<Maike::Io::Reader> m_buffer;
 		bool m_has_data;
+		bool m_eof;
 	};
 }
 
-- 
2.43.0


From 3bf6797038f3025c28f958cb1b2f697cfeb91a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 09/17] fix: advance through the captured output of a recipe

The reader returned the first block again and again, which corrupted output
longer than the read buffer and never reached the end of blank output.
---
 core/db/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/db/compiler.cpp b/core/db/compiler.cpp
index 7aa9e8f..fe3c618 100644
--- a/core/db/compiler.cpp
+++ b/core/db/compiler.cpp
@@ -47,6 +47,7 @@ namespace
 		auto const bytes_left = std::size(reader.buffer.get()) - reader.read_offset;
 		auto const bytes_to_read = std::min(n, bytes_left);
 		memcpy(output, reader.buffer.get().data() + reader.read_offset, bytes_to_read);
+		reader.read_offset += bytes_to_read;
 
 		return bytes_to_read;
 	}
-- 
2.43.0


From 2e6d86cc343f698dfded31fcacf6d06fc0713ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 10/17] fix: close an input file only once

reset() kept the closed descriptor, which was closed again on destruction.
---
 core/io/input_file.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/io/input_file.hpp b/core/io/input_file.hpp
index 36880ce..d5ca3b4 100644
--- a/core/io/input_file.hpp
+++ b/core/io/input_file.hpp
@@ -46,7 +46,11 @@ namespace Maike::Io
 
 		void reset()
 		{
-			if(m_handle != -1) { close(m_handle); }
+			if(m_handle != -1)
+			{
+				close(m_handle);
+				m_handle = -1;
+			}
 		}
 
 		int get() const
-- 
2.43.0


From b30f2537102f6468b948d5a8d9af831e714d8f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 11/17] fix: quote logged commands so that a shell reads them
 back unchanged

Inside single quotes, a backslash is an ordinary character to a POSIX shell, so
neither an escaped quote nor an escaped backslash came out as intended.
---
 core/exec/command.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index bf14826..40012f2 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -12,7 +12,7 @@ namespace
 	{
 		std::string ret{"'"};
 		std::for_each(std::begin(str), std::end(str), [&ret](auto ch_in) {
-			if(ch_in == '\\' || ch_in == '\'') { ret += '\\'; }
+			if(ch_in == '\'') { ret += "'\\'"; }
 			ret += ch_in;
 		});
 		ret += "'";
-- 
2.43.0


From 3c455fc7138c38f2ba25f021087273cef53b32d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:21 +0000
Subject: [PATCH 12/17] fix: record the failure of a task that throws

When a recipe could not be launched, the result of its task remained pending,
and the build waited forever for it on behalf of the tasks depending on it.
---
 core/db/task_list.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index b53f714..fbf5185 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -95,6 +95,11 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 				                 task_results = m_results.get(),
 				                 at_exit = ScopeExitHandler{[&e]() { e.set(); }}]() mutable {
 					auto const index = task.node().id().value();
+					// NOTE: If the task throws, it has failed. Otherwise, anything that depends on it would wait
+					// forever.
+					ScopeExitHandler set_failed_on_error{[&task_result = task_results[index]]() {
+						if(task_result == TaskResult::Pending) { task_result = TaskResult::Failure; }
+					}};
 					if(auto result = task.runIfNecessary(force_recompilation, invoker); result)
 					{
 						auto const build_failed = failed(*result);
-- 
2.43.0


From 53a9272f6b0de98bb1d3fd4a2f4348f4ed042c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:21 +0000
Subject: [PATCH 13/17] fix: close the standard input of a command when all
 input has been written

A command that reads its standard input to the end never finished.
---
 core/exec/execve.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index a634dd4..85ff366 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -132,12 +132,13 @@ namespace
 
 
 	Maike::Exec::ExitStatus communicateWith(
-	   pid_t pid, Maike::Io::Redirector const& io_redirector, int stdin, int stdout, int stderr)
+	   pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin, int stdout, int stderr)
 	{
 		signal(SIGPIPE, SIG_IGN);
 		std::thread stderr_proc{read, io_redirector.handle(), stderr, io_redirector.stderr()};
 		std::thread stdout_proc{read, io_redirector.handle(), stdout, io_redirector.stdout()};
-		write(io_redirector.handle(), stdin, io_redirector.stdin());
+		write(io_redirector.handle(), stdin.writeEnd(), io_redirector.stdin());
+		stdin.closeWriteEnd();
 
 		int status;
 		if(::waitpid(pid, &status, 0) == -1) { abort(); }
@@ -224,7 +225,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	stdout.closeWriteEnd();
 	stderr.closeWriteEnd();
 
-	return communicateWith(pid, io_redirector, stdin.writeEnd(), stdout.readEnd(), stderr.readEnd());
+	return communicateWith(pid, io_redirector, stdin, stdout.readEnd(), stderr.readEnd());
 }
 
 namespace
-- 
2.43.0


From 71d09d006340127f81ffc7a8038c5e1714770514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:21 +0000
Subject: [PATCH 14/17] fix: return a value from the move assignment of
 ScopeExitHandler

---
 core/utils/scope_exit_handler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/utils/scope_exit_handler.hpp b/core/utils/scope_exit_handler.hpp
index ed2e2e1..88dad81 100644
--- a/core/utils/scope_exit_handler.hpp
+++ b/core/utils/scope_exit_handler.hpp
@@ -22,6 +22,7 @@ namespace Maike
 		{
 			m_obj = std::move(other.m_obj);
 			other.m_obj.reset();
+			return *this;
 		}
 
 		~ScopeExitHandler()
-- 
2.43.0


From 128fe8e46243ed359c94799f764c6368bbaeae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:04 +0000
Subject: [PATCH 15/17] fix: do not let commands started at the same time
 inherit each other's pipes

---
 core/exec/execve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index 85ff366..76088a6 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -27,7 +27,7 @@ namespace
 		Pipe()
 		{
 			int fds[2];
-			if(pipe(fds) == -1) { throw "Failed to create pipe"; }
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw "Failed to create pipe"; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
-- 
2.43.0


From 5699c917901ccff2e955c9b1f79528e6aad61bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:49 +0000
Subject: [PATCH 16/17] fix: give concurrent lookups of a recipe name the same
 answer

---
 core/source_tree_loader/command_dictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/source_tree_loader/command_dictionary.cpp b/core/source_tree_loader/command_dictionary.cpp
index 9504cb4..5cbd522 100644
--- a/core/source_tree_loader/command_dictionary.cpp
+++ b/core/source_tree_loader/command_dictionary.cpp
@@ -37,6 +37,5 @@ Maike::SourceTreeLoader::CommandDictionary::get(fs::path const& cmd) const
 	}(m_content->m_search_paths);
 
 	std::lock_guard write_lock{m_content->m_mtx};
-	m_content->m_commands[cmd] = res;
-	return res;
+	return m_content->m_commands.insert(std::pair{cmd, res}).first->second;
 }
\ No newline at end of file
-- 
2.43.0


From b039483881d9ec0d08a054cafd32e2e34576b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:30 +0000
Subject: [PATCH 17/17] fix: scan a source directory under its normalised name

---
 core/source_tree_loader/directory_scanner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/source_tree_loader/directory_scanner.cpp b/core/source_tree_loader/directory_scanner.cpp
index daa9971..8bfe24e 100644
--- a/core/source_tree_loader/directory_scanner.cpp
+++ b/core/source_tree_loader/directory_scanner.cpp
@@ -10,11 +10,11 @@ Maike::SourceTreeLoader::DirectoryScanner&
 Maike::SourceTreeLoader::DirectoryScanner::processPath(fs::path const& src_path,
                                                        fs::path const& target_dir)
 {
-	m_root = src_path;
+	m_root = src_path.lexically_normal();
 
 	r_workers->addTask(
 	   [this,
-	    src_path = fs::path{src_path},
+	    src_path = m_root,
 	    target_dir,
 	    // NOTE: We use std::unique_lock to make sure that the counter is decreased when the task
 	    // finishes.
-- 
2.43.0

