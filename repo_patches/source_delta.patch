From a18d572916ff53339ee09ef263e67b4cfecb6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:28 +0000
Subject: [PATCH 01/49] fix: write generic and nested type tables in first-use
 order, not heap address order

types_t iterated two pointer-keyed maps when laying out an assembly, so the
same sources compiled to different .apl bytes depending on heap addresses.
---
 modules/core/__assembly.h | 15 +++++++++++++--
 modules/core/assembly.cpp | 12 ++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/modules/core/__assembly.h b/modules/core/__assembly.h
index d50b4d7..1fed90f 100644
--- a/modules/core/__assembly.h
+++ b/modules/core/__assembly.h
@@ -103,7 +103,7 @@ namespace X_ROOT_NS::modules::core {
         // Enums all general types.
         template<typename callback_t> void each_general_types(callback_t callback)
         {
-            __each_types(__general_types, callback);
+            __each_types(__ordered_general_types, callback);
         }
 
         // Gets typedef of specified namespace and name.
@@ -113,7 +113,7 @@ namespace X_ROOT_NS::modules::core {
         // Enums all typedefs.
         template<typename callback_t> void each_type_defs(callback_t callback)
         {
-            __each_types(__type_defs, callback);
+            __each_types(__ordered_type_defs, callback);
         }
 
         // Gets the generic type of specified template and types and host type.
@@ -167,12 +167,23 @@ namespace X_ROOT_NS::modules::core {
         std::map<__array_type_key_t,   array_type_t *>   __array_types;
         std::map<__type_def_key_t,     type_def_t *>     __type_defs;
 
+        // The keys contain addresses, enum types by the order they were appended.
+        std::vector<general_type_t *> __ordered_general_types;
+        std::vector<type_def_t *>     __ordered_type_defs;
+
         // Enums types in the map.
         template<typename _key_t, typename _type_t, typename callback_t>
         void __each_types(std::map<_key_t, _type_t *> & map, callback_t callback)
         {
             al::for_each(map, [&callback](auto & it) { callback(it.second); });
         }
+
+        // Enums types in the list.
+        template<typename _type_t, typename callback_t>
+        void __each_types(std::vector<_type_t *> & list, callback_t callback)
+        {
+            al::for_each(list, callback);
+        }
     };
 
     ////////// ////////// ////////// ////////// //////////
diff --git a/modules/core/assembly.cpp b/modules/core/assembly.cpp
index af535e2..c5248bd 100644
--- a/modules/core/assembly.cpp
+++ b/modules/core/assembly.cpp
@@ -105,7 +105,11 @@ namespace X_ROOT_NS::modules::core {
         );
 
         type->assembly = __assembly;
-        return __append(__general_types, key, type);
+        if (!__append(__general_types, key, type))
+            return false;
+
+        __ordered_general_types.push_back(type);
+        return true;
     }
 
     // Appends typedef.
@@ -117,7 +121,11 @@ namespace X_ROOT_NS::modules::core {
             type_def->param_count(), type_def->host_type
         );
 
-        return __append(__type_defs, key, type_def);
+        if (!__append(__type_defs, key, type_def))
+            return false;
+
+        __ordered_type_defs.push_back(type_def);
+        return true;
     }
 
     // Gets general type by namespace, name, etc.
-- 
2.43.0


From e01658c729e04037a953b1b1a724774c406b607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:28 +0000
Subject: [PATCH 02/49] fix: initialise every byte of the emitted xil
 instructions

pop/pick left the identity bits, copy the data bits and command calls three
bytes of the union uninitialised; they were written into the assembly.
---
 modules/core/__xil.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modules/core/__xil.h b/modules/core/__xil.h
index e50b6ae..54affe9 100644
--- a/modules/core/__xil.h
+++ b/modules/core/__xil.h
@@ -953,7 +953,7 @@ namespace X_ROOT_NS::modules::core {
 
         // Constructors.
         pop_xil_t(xil_storage_type_t stype, xil_type_t dtype)
-            : __super_t(xil_command_t::pop, stype), __dtype((byte_t)dtype)
+            : __super_t(xil_command_t::pop, stype), __dtype((byte_t)dtype), identity(0)
         {
             _A(stype <= xil_storage_type_t::__pop_end__);
         }
@@ -961,7 +961,7 @@ namespace X_ROOT_NS::modules::core {
         // Constructors.
         pop_xil_t(ref_t struct_type_ref)
             : __super_t(xil_command_t::pop, xil_storage_type_t::empty)
-            , __dtype((byte_t)xil_type_t::empty)
+            , __dtype((byte_t)xil_type_t::empty), identity(0)
         {
             set_ref(struct_type_ref);
         }
@@ -1070,7 +1070,7 @@ namespace X_ROOT_NS::modules::core {
 
         // Constructor.
         pick_xil_t(xil_storage_type_t stype, xil_type_t dtype)
-            : __super_t(xil_command_t::pick, stype), __dtype((byte_t)dtype)
+            : __super_t(xil_command_t::pick, stype), __dtype((byte_t)dtype), identity(0)
         {
             _A(stype <= xil_storage_type_t::__pop_end__);
         }
@@ -1420,7 +1420,10 @@ namespace X_ROOT_NS::modules::core {
         // Constructor, for command call.
         call_xil_t(xil_call_command_t command)
             : __super_t(xil_command_t::call, xil_call_type_t::command)
-            , command(command) { }
+            , method(ref_t())
+        {
+            this->command = command;
+        }
 
         union
         {
@@ -1670,7 +1673,7 @@ namespace X_ROOT_NS::modules::core {
 
         // Constructors.
         copy_xil_t(xil_copy_type_t copy_type) : __super_t(xil_command_t::copy)
-            , __copy_type((byte_t)copy_type)
+            , __copy_type((byte_t)copy_type), __data(0)
         { }
 
         // Returns copy type.
-- 
2.43.0


From 1c2bf578f56e36ed56c918dd2cf6dca5a4af5f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:04 +0000
Subject: [PATCH 03/49] fix: drop a debugging print from struct argument
 compilation

Compiling a call that passes a custom struct printed 'atype: ...' on stdout,
mixing compiler internals into the output of the compiled program.
---
 modules/compile/expression.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index eb964ab..77d3b0a 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1092,8 +1092,6 @@ namespace X_ROOT_NS::modules::compile {
             ref_t type_ref = __ref_of(ctx, atype);
             pool.append<x_stack_alloc_xil_t>(type_ref);
 
-            _PP(atype);
-
             exp->compile(ctx, pool);
         }
         else
-- 
2.43.0


From 513b9633c34225caa5b125f55ddeafb600c83e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:14 +0000
Subject: [PATCH 04/49] fix: report read and write failures of the lib file
 helpers

A failing read silently returned a truncated text, a failing write or close was
ignored, and append_all_bytes pushed bytes through a wide character stream.
---
 include/lib.h |  8 +++++++-
 lib/file.cpp  | 13 ++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/lib.h b/include/lib.h
index 78553b8..7a6175b 100644
--- a/include/lib.h
+++ b/include/lib.h
@@ -28,6 +28,12 @@ namespace X_ROOT_NS::lib {
         // Open file error
         open_error,
 
+        // Read file error
+        read_error,
+
+        // Write file error
+        write_error,
+
     X_ENUM_END
 
     ////////// ////////// ////////// ////////// //////////
@@ -62,7 +68,7 @@ namespace X_ROOT_NS::lib {
     void write_all_bytes(const path_t & file, const bytes_t & bytes);
 
     // Appends bytes to the end of the file.
-    void append_all_bytes(const path_t & file, const bytes_t * bytes, size_t length=__empty_length);
+    void append_all_bytes(const path_t & file, const byte_t * bytes, size_t length=__empty_length);
 
     // Append bytes to the end of the file.
     void append_all_bytes(const path_t & file, const bytes_t & bytes);
diff --git a/lib/file.cpp b/lib/file.cpp
index 9d915d9..fd65ae8 100644
--- a/lib/file.cpp
+++ b/lib/file.cpp
@@ -16,6 +16,12 @@ namespace X_ROOT_NS::lib {
         // Open file error
         X_C(open_error,   _T("file open error"))
 
+        // Read file error
+        X_C(read_error,   _T("file read error"))
+
+        // Write file error
+        X_C(write_error,  _T("file write error"))
+
     X_ENUM_INFO_END
 
     ////////// ////////// ////////// ////////// //////////
@@ -79,6 +85,8 @@ namespace X_ROOT_NS::lib {
         __write_all(f, s, length);
 
         f.close();
+        if (!f)
+            throw _E(file_error_code_t::write_error);
     }
  
     //-------- ---------- ---------- ---------- ----------
@@ -100,6 +108,9 @@ namespace X_ROOT_NS::lib {
             ret_s.append(buffer, size);
         }
 
+        if (stream.bad())
+            throw _E(file_error_code_t::read_error);
+
         return std::move(ret_s);
     }
 
@@ -182,7 +193,7 @@ namespace X_ROOT_NS::lib {
     void append_all_bytes(const path_t & file, const byte_t * bytes, size_t length)
     {
         _A(bytes != nullptr);
-        __write_all<__cofstream_t>(file, bytes, length, std::ios_base::app);
+        __write_all<__bofstream_t>(file, bytes, length, std::ios_base::app);
     }
 
     // Append bytes to the end of the file.
-- 
2.43.0


From 99cad756d1f4a6b56b4e8e9a0cf657b1f5a7a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:17 +0000
Subject: [PATCH 05/49] fix: replace an assembly only after it was written
 completely

Write errors of the output stream were ignored and the previous assembly was
truncated first, so a full disk or a killed compiler left a broken .apl behind
(even with exit status 0). The stream now checks its state and writes a
temporary file that is renamed over the target.
---
 common/common.cpp           |  4 ++++
 modules/compile/compile.cpp | 44 ++++++++++++++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/common/common.cpp b/common/common.cpp
index a63692c..2bf223f 100644
--- a/common/common.cpp
+++ b/common/common.cpp
@@ -498,12 +498,16 @@ namespace X_ROOT_NS {
             throw _EC(argument_error, _T("buffer is null"));
 
         __stream.write((const char *)buffer, length);
+        if (!__stream)
+            throw _EC(invalid_operation, _T("write file failed"));
     }
 
     // Completed notify.
     void file_xostream_t::completed()
     {
         __stream.close();
+        if (!__stream)
+            throw _EC(invalid_operation, _T("write file failed"));
     }
 
     // Dealloctor
diff --git a/modules/compile/compile.cpp b/modules/compile/compile.cpp
index 04071e6..32c45c6 100644
--- a/modules/compile/compile.cpp
+++ b/modules/compile/compile.cpp
@@ -750,6 +750,45 @@ namespace X_ROOT_NS::modules::compile {
 
     ////////// ////////// ////////// ////////// //////////
 
+    // A file stream that replaces the target file only when it was written completely.
+    class __assembly_file_xostream_t : public file_xostream_t
+    {
+        typedef file_xostream_t __super_t;
+        typedef std::ios_base   __i;
+
+    public:
+        // Opens a temporary file beside the specified path.
+        void open(const string_t & path)
+        {
+            __path = lib::path_t(path);
+            __temp_path = lib::path_t(path + _T(".")
+                + boost::filesystem::unique_path("%%%%-%%%%-%%%%.tmp").wstring());
+
+            __super_t::open(lib::to_str(__temp_path), __i::out | __i::trunc | __i::binary);
+            __opened = true;
+        }
+
+        // Completed notify, puts the file in place.
+        virtual void completed() override
+        {
+            __super_t::completed();
+            boost::filesystem::rename(__temp_path, __path);
+            __opened = false;
+        }
+
+        // Deallocator, drops the temporary file when not completed.
+        virtual ~__assembly_file_xostream_t() override
+        {
+            boost::system::error_code ec;
+            if (__opened)
+                boost::filesystem::remove(__temp_path, ec);
+        }
+
+    private:
+        lib::path_t __path, __temp_path;
+        bool __opened = false;
+    };
+
     // Creates an assembly output stream.
     xostream_t * file_assembly_writer_t::new_stream(
                             compile_context_t & ctx, ast_project_t * cproject)
@@ -761,10 +800,9 @@ namespace X_ROOT_NS::modules::compile {
         string_t path = lib::path_combine(__directory, name);
         path = lib::path_add_extension(path, JC_ASSEMBLY_EXT);
 
-        file_xostream_t * fs = ctx.new_obj<file_xostream_t>();
-        typedef std::ios_base __i;
+        __assembly_file_xostream_t * fs = ctx.new_obj<__assembly_file_xostream_t>();
+        fs->open(path);
 
-        fs->open(path, __i::out | __i::trunc | __i::binary);
         cproject->assembly_path = path;
 
         return fs;
-- 
2.43.0


From 60546cf60f1714999e419748f876abe6816b457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 06/49] fix: exit with a failure status when compiling or
 running failed

The results of compile and run were dropped, so compile errors and uncaught
guest exceptions ended with exit status 0, and a std::exception (bad_alloc,
boost filesystem) aborted the process instead of being reported.
---
 include/modules/april.h    |  6 +++---
 include/modules/exec.h     |  8 ++++----
 modules/april/__compiler.h |  2 +-
 modules/april/april.cpp    | 26 +++++++++++++++-----------
 modules/april/compiler.cpp |  7 +++----
 modules/exec/commands.cpp  |  4 +++-
 modules/exec/commands.h    |  2 +-
 modules/exec/exec.cpp      |  9 +++++----
 8 files changed, 35 insertions(+), 29 deletions(-)

diff --git a/include/modules/april.h b/include/modules/april.h
index 29f09f9..57565b5 100644
--- a/include/modules/april.h
+++ b/include/modules/april.h
@@ -304,7 +304,7 @@ namespace X_ROOT_NS::modules::april {
         april_t(april_options_t & options);
 
         // Executes.
-        void execute();
+        bool execute();
 
         X_TO_STRING_IMPL(_T("april_t"))
 
@@ -314,10 +314,10 @@ namespace X_ROOT_NS::modules::april {
         typedef april_options_t __t;
 
         // Executes compiling command.
-        void __execute_compile(const __t::compile_options_t & options);
+        bool __execute_compile(const __t::compile_options_t & options);
 
         // Executes running command.
-        void __execute_run(const __t::run_options_t & options);
+        bool __execute_run(const __t::run_options_t & options);
 
         // Executes helping command.
         void __execute_help(const __t::help_options_t & options);
diff --git a/include/modules/exec.h b/include/modules/exec.h
index ea40ec2..3526c8a 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -1207,8 +1207,8 @@ namespace X_ROOT_NS::modules::exec {
             : env(ctx.memory, ctx.rpool, ctx.assemblies), __ctx(ctx)
         { }
 
-        // Executes commands.
-        void execute();
+        // Executes commands, returns false if terminated by an uncaught exception.
+        bool execute();
 
         executor_env_t env;
 
@@ -1220,8 +1220,8 @@ namespace X_ROOT_NS::modules::exec {
 
     ////////// ////////// ////////// ////////// //////////
 
-    // Executes with specified context.
-    void execute(rt_context_t & ctx);
+    // Executes with specified context, returns false if terminated by an uncaught exception.
+    bool execute(rt_context_t & ctx);
 
     ////////// ////////// ////////// ////////// //////////
 
diff --git a/modules/april/__compiler.h b/modules/april/__compiler.h
index afd5e43..d2dc481 100644
--- a/modules/april/__compiler.h
+++ b/modules/april/__compiler.h
@@ -136,7 +136,7 @@ namespace X_ROOT_NS::modules::april {
         __project_cassembly_t * __record_project(project_t * project);
 
         // Runs the specified assembly.
-        void __run(const string_t & execute_assembly);
+        bool __run(const string_t & execute_assembly);
 
         // Memory manager.
         xheap_t __xheap;
diff --git a/modules/april/april.cpp b/modules/april/april.cpp
index 5492315..d2b7ca3 100644
--- a/modules/april/april.cpp
+++ b/modules/april/april.cpp
@@ -398,17 +398,15 @@ Use \"april help [command] ...\" for more information about a command.      \n\
     }
 
     // Executes.
-    void april_t::execute()
+    bool april_t::execute()
     {
         switch (__options.command)
         {
             case april_command_t::compile:
-                __execute_compile(__options.get<__t::compile_options_t>());
-                break;
+                return __execute_compile(__options.get<__t::compile_options_t>());
 
             case april_command_t::run:
-                __execute_run(__options.get<__t::run_options_t>());
-                break;
+                return __execute_run(__options.get<__t::run_options_t>());
 
             case april_command_t::help:
                 __execute_help(__options.get<__t::help_options_t>());
@@ -421,18 +419,20 @@ Use \"april help [command] ...\" for more information about a command.      \n\
             default:
                 X_UNEXPECTED();
         }
+
+        return true;
     }
 
     // Executes compile command.
-    void april_t::__execute_compile(const __t::compile_options_t & options)
+    bool april_t::__execute_compile(const __t::compile_options_t & options)
     {
-        april_xcompiler_t(options).compile();
+        return april_xcompiler_t(options).compile();
     }
 
     // Executes run command.
-    void april_t::__execute_run(const __t::run_options_t & options)
+    bool april_t::__execute_run(const __t::run_options_t & options)
     {
-        april_xcompiler_t(options).run(options.execute_assembly);
+        return april_xcompiler_t(options).run(options.execute_assembly);
     }
 
     // Executes help command.
@@ -459,14 +459,18 @@ Use \"april help [command] ...\" for more information about a command.      \n\
             april_options_t options;
             if (options.parse(argc, argv))
             {
-                april_t(options).execute();
-                return 0;
+                if (april_t(options).execute())
+                    return 0;
             }
         }
         catch (const error_t & err)
         {
             _P(_str(err));
         }
+        catch (const std::exception & e)
+        {
+            std::wcout << _T("error: ") << e.what() << std::endl;
+        }
 
         return 1;
     }
diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index 5e9105c..19c0703 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -250,12 +250,11 @@ namespace X_ROOT_NS::modules::april {
                 throw e;
         }
 
-        this->__run(execute_assembly);
-        return true;
+        return this->__run(execute_assembly);
     }
 
     // Runs specified assembly.
-    void april_xcompiler_t::__run(const string_t & execute_assembly)
+    bool april_xcompiler_t::__run(const string_t & execute_assembly)
     {
         __cassembly_t * main_cassembly;
 
@@ -272,7 +271,7 @@ namespace X_ROOT_NS::modules::april {
         }
 
         rt_context_t rt_ctx(&__xheap, create_heap(&__xheap), &provider);
-        exec::execute(rt_ctx);
+        return exec::execute(rt_ctx);
     }
 
     // Determines the compile type.
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 5125de2..6879c44 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -7770,7 +7770,7 @@ namespace X_ROOT_NS::modules::exec {
         }
     }
 
-    void execute_commands(command_execute_context_t & ctx, command_t ** commands)
+    bool execute_commands(command_execute_context_t & ctx, command_t ** commands)
     {
         #if EXEC_TRACE
         _PF(_T("~ %1% command classes in total ~"), __COUNTER__);
@@ -7787,6 +7787,8 @@ namespace X_ROOT_NS::modules::exec {
         #if EXEC_TRACE
         _PFC(light_cyan, _T("-> %|1$-50|[%2%]"), _T("<end>"), ctx.stack.top());
         #endif  // EXEC_TRACE
+
+        return e.code == exec_env_code_t::end;
     }
 
     ////////// ////////// ////////// ////////// //////////
diff --git a/modules/exec/commands.h b/modules/exec/commands.h
index 9921610..45b0207 100644
--- a/modules/exec/commands.h
+++ b/modules/exec/commands.h
@@ -68,7 +68,7 @@ namespace X_ROOT_NS::modules::exec {
     const string_t to_command_string(command_t * command);
 
     // Executes a set of commands.
-    void execute_commands(command_execute_context_t & ctx, command_t ** commands);
+    bool execute_commands(command_execute_context_t & ctx, command_t ** commands);
 
     ////////// ////////// ////////// ////////// //////////
 
diff --git a/modules/exec/exec.cpp b/modules/exec/exec.cpp
index e449a6d..121922f 100644
--- a/modules/exec/exec.cpp
+++ b/modules/exec/exec.cpp
@@ -240,7 +240,7 @@ namespace X_ROOT_NS::modules::exec {
     // executor_t
 
     // Executes commands.
-    void executor_t::execute()
+    bool executor_t::execute()
     {
         rt_assembly_t * main_assembly = env.assemblies.load_main_assembly();
         rt_method_t * entry_point = main_assembly->get_entry_point();
@@ -259,9 +259,10 @@ namespace X_ROOT_NS::modules::exec {
         };
 
         command_execute_context_t exec_ctx(__ctx.heap, env);
-        execute_commands(exec_ctx, commands);
+        bool r = execute_commands(exec_ctx, commands);
 
         _A(exec_ctx.stack.bottom() == exec_ctx.stack.top());
+        return r;
     }
 
     ////////// ////////// ////////// ////////// //////////
@@ -293,9 +294,9 @@ namespace X_ROOT_NS::modules::exec {
     ////////// ////////// ////////// ////////// //////////
 
     // Executes with specified context.
-    void execute(rt_context_t & ctx)
+    bool execute(rt_context_t & ctx)
     {
-        executor_t(ctx).execute();
+        return executor_t(ctx).execute();
     }
 
     ////////// ////////// ////////// ////////// //////////
-- 
2.43.0


From 965b2cfd7a76e1c86a86c258603ccf3c3aa3d54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 07/49] fix: exit with a failure status when the standard
 output was not delivered

Write errors on stdout (a full disk, a closed pipe) were ignored: output was
lost and the exit status was still 0.
---
 modules/april/april.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/april/april.cpp b/modules/april/april.cpp
index d2b7ca3..0b6cbc3 100644
--- a/modules/april/april.cpp
+++ b/modules/april/april.cpp
@@ -459,7 +459,7 @@ Use \"april help [command] ...\" for more information about a command.      \n\
             april_options_t options;
             if (options.parse(argc, argv))
             {
-                if (april_t(options).execute())
+                if (april_t(options).execute() && std::wcout.flush() && std::cout.flush())
                     return 0;
             }
         }
-- 
2.43.0


From 9b969ba276f1e3d4b22b84e2633921aa7afdb3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 08/49] fix: end every Console.WriteLine with a line break

WriteLine(ulong) and WriteLine of a null string wrote no line break.
---
 modules/rtlib/system.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/rtlib/system.cpp b/modules/rtlib/system.cpp
index fa9995e..49ae95a 100644
--- a/modules/rtlib/system.cpp
+++ b/modules/rtlib/system.cpp
@@ -48,7 +48,9 @@ namespace X_ROOT_NS::modules::rtlib {
         const char_t * s = *arg->value;
 
         if (s != nullptr)
-            std::wcout << s << std::endl;
+            std::wcout << s;
+
+        std::wcout << std::endl;
     }
 
     void console_write_char(rtlib_context_t & ctx)
@@ -138,7 +140,7 @@ namespace X_ROOT_NS::modules::rtlib {
 
     void console_write_uint64_line(rtlib_context_t & ctx)
     {
-        __console_write<ruint64_t>(ctx);
+        __console_write_line<ruint64_t>(ctx);
     }
 
     void console_write_float(rtlib_context_t & ctx)
-- 
2.43.0


From db0a6679bc186c7522fbf10160ca249bc933b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 09/49] fix: allocate multi-dimensional arrays for all their
 elements

The allocation size was computed from the first dimension only, so elements
beyond it were written past the end of the block.
---
 modules/mm/mm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index d05be4f..2899bfc 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -163,6 +163,8 @@ namespace X_ROOT_NS::modules::mm {
                 length *= *l;
             }
 
+            size = _alignf(length * element_size, sizeof(rt_stack_unit_t));
+
             // type info + length of each dimensions + array length.
             const size_t extern_size = _alignf(
                 sizeof(rt_type_t *) + sizeof(array_length_t) * dimension + sizeof(array_length_t),
-- 
2.43.0


From 270b8f3aa23d4585f7f92db51d4c19943bf29916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:42 +0000
Subject: [PATCH 10/49] fix: compile the files of a directory argument

each_files listed an empty path instead of the directory, and add_file stopped
at the first file that is not a source, dropping the ones after it.
---
 modules/april/compiler.cpp | 2 +-
 modules/april/util.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index 19c0703..c4a1420 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -53,7 +53,7 @@ namespace X_ROOT_NS::modules::april {
         {
             compile_file_type_t file_type = file_type_of(file_path);
             if (file_type != compile_file_type_t::source)
-                return;
+                continue;
 
             if (!__current_project->exists(lib::to_str(file_path)))
             {
diff --git a/modules/april/util.h b/modules/april/util.h
index 81ad93f..d701c32 100644
--- a/modules/april/util.h
+++ b/modules/april/util.h
@@ -54,7 +54,7 @@ namespace X_ROOT_NS::modules::april {
         }
         else if (__bf::is_directory(path))
         {
-            for (__path_t file : lib::all_files(directory, _T("*.*")))
+            for (__path_t file : lib::all_files(path, _T("*.*")))
             {
                 if (!is_hidden_file(file))
                     f(__revise(file, absolute));
-- 
2.43.0


From d6d165e22eb6a8693ae2634cec838692f49eed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:42 +0000
Subject: [PATCH 11/49] fix: take the lock of the language registry for lookups
 too

register_lang changes the maps under the lock while lookups read them without.
---
 modules/compile/compile.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modules/compile/compile.cpp b/modules/compile/compile.cpp
index 32c45c6..b334343 100644
--- a/modules/compile/compile.cpp
+++ b/modules/compile/compile.cpp
@@ -1017,15 +1017,23 @@ namespace X_ROOT_NS::modules::compile {
         if (args.lang_id == unknown_lang_id)
             throw _E(compile_error_code_t::unknown_lang);
 
-        auto creator_it = __creators.find(args.lang_id);
-        if (creator_it == __creators.end())
+        lang_creator_t * creator = nullptr;
+
+        {
+            _L(__lock);
+
+            auto creator_it = __creators.find(args.lang_id);
+            if (creator_it != __creators.end())
+                creator = creator_it->second;
+        }
+
+        if (creator == nullptr)
         {
             throw _E(compile_error_code_t::unknown_lang, 
                 sprintf(_T("unknown language \"%1%\""), get_lang_name(args.lang_id))
             );
         }
 
-        lang_creator_t * creator = creator_it->second;
         lang_t * lang = creator->create(memory, args);
 
         _A(lang != nullptr);
@@ -1051,6 +1059,8 @@ namespace X_ROOT_NS::modules::compile {
     // Returns language id of name.
     lang_id_t simple_lang_factory_t::get_lang_id(const string_t & name)
     {
+        _L(__lock);
+
         auto it = __name_id_map.find(name);
         return it != __name_id_map.end()? it->second : unknown_lang_id;
     }
@@ -1058,6 +1068,8 @@ namespace X_ROOT_NS::modules::compile {
     // Returns language name of language id.
     const string_t simple_lang_factory_t::get_lang_name(lang_id_t lang_id)
     {
+        _L(__lock);
+
         auto it = __id_name_map.find(lang_id);
         return it != __id_name_map.end()? it->second : string_t(_T(""));
     }
-- 
2.43.0


From 4dc678d324a1572eb7d5380221f8e336233afb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:53 +0000
Subject: [PATCH 12/49] fix: wait for semaphore signals with one mutex and a
 predicate

Waiting used a second mutex: a release between the check and the wait was lost,
acquire and wake-up took the two mutexes in opposite order (deadlock), and a
spurious wake-up or a timeout race took a signal that was not there.
---
 algorithm/__thread.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/algorithm/__thread.h b/algorithm/__thread.h
index 262de6e..22698a9 100644
--- a/algorithm/__thread.h
+++ b/algorithm/__thread.h
@@ -73,19 +73,16 @@ namespace X_ROOT_NS::algorithm {
             if (__try_acquire())
                 return true;
 
-            std::unique_lock<std::mutex> lk(__wait_mutex);
             __waiting_count++;
 
-            guard.unlock();
+            auto has_signal = [this] { return __signal_count > 0; };
 
-            // TODO: not a atomic operation
             bool success = true;
             if (timeout == _duration_t::zero())
-                __condition_var.wait(lk);
+                __condition_var.wait(guard, has_signal);
             else
-                success = __condition_var.wait_for (lk, timeout) == std::cv_status::no_timeout;
+                success = __condition_var.wait_for(guard, timeout, has_signal);
 
-            _L(__mutex);
             if (success)
                 __signal_count--;
 
@@ -106,13 +103,12 @@ namespace X_ROOT_NS::algorithm {
         const signal_count_t __max_signal_count;
         volatile signal_count_t __signal_count;
         volatile signal_count_t __waiting_count = 0;
-        std::recursive_mutex __mutex;
+        std::mutex __mutex;
 
         // Try to acquire a signal.
         bool __try_acquire();
 
         std::condition_variable __condition_var;
-        std::mutex __wait_mutex;
     };
 
     ////////// ////////// ////////// ////////// //////////
-- 
2.43.0


From 029b429eb5663952af38a3f99c4a9c8b12c61341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:09 +0000
Subject: [PATCH 13/49] fix: run finally blocks after the return value was
 evaluated

---
 modules/compile/__xilx.h       | 7 +++++--
 modules/compile/statements.cpp | 7 ++-----
 modules/compile/xilx.cpp       | 4 ++++
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index 3d59a6f..49e0b24 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -178,13 +178,16 @@ namespace X_ROOT_NS::modules::compile {
     public:
 
         // Constructor.
-        return_xilx_t(__region_t & region, expression_t * expression)
+        return_xilx_t(__region_t & region, expression_t * expression, bool leave = false)
             : __super_t(region)
-            , expression(expression) { }
+            , expression(expression), leave(leave) { }
 
         // Return expression.
         expression_t * expression;
 
+        // Whether leaves protected regions before returning.
+        bool leave;
+
         // Writes xilx to a pool.
         virtual void write(__xw_context_t & ctx, xil_pool_t & pool) override;
 
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 2ee30bf..4a8c4be 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -648,17 +648,14 @@ namespace X_ROOT_NS::modules::compile {
     // Compiles this statement.
     void return_statement_t::compile(statement_compile_context_t & ctx) 
     {
-        // Insert leave command before return in protected regions.
-        if (__need_leave(ctx))
-            xilx::append_xilx<leave_ret_xilx_t>(ctx);
-
         if (expression != nullptr)
         {
             __walk_variables(expression);
             set_assign_parent(expression);
         }
 
-        append_xilx<return_xilx_t>(ctx, expression);
+        // Insert leave command before return in protected regions.
+        append_xilx<return_xilx_t>(ctx, expression, __need_leave(ctx));
     }
 
     // Returns exit type.
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 40f49e2..1313fa2 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -492,6 +492,10 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        // The finally blocks run after the expression evaluated.
+        if (leave)
+            xil::append_jmp_xil(pool, xil_jmp_model_t::leave);
+
         xil::append_ret(pool);
     }
 
-- 
2.43.0


From 5eb0e2f7ed764c9b4d9363adaaa249f3c0814578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:43 +0000
Subject: [PATCH 14/49] fix: do not look for the parent of a block that was not
 found

---
 include/modules/exec.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index 3526c8a..b9f0047 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -608,6 +608,10 @@ namespace X_ROOT_NS::modules::exec {
                 }
             }
 
+            // No block contains the point.
+            if (block == block_end)
+                return;
+
             while ((block = block->parent) != nullptr)
             {
                 if (__MatchBlockType(block) && !f(block))
-- 
2.43.0


From ce12de1acdb83d6ee9af2f7a4b5094b64006c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 15/49] fix: raise OutOfRangeException for every array index
 out of range

---
 modules/exec/commands.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 6879c44..d65262b 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1262,7 +1262,7 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (index < 0 || index >= mm::get_array_length(array_ref))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1300,7 +1300,7 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
-            if (index >= mm::get_array_length(array_ref))
+            if (index < 0 || index >= mm::get_array_length(array_ref))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1376,7 +1376,7 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (index < 0 || index >= mm::get_array_length(array_ref))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -1413,7 +1413,7 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
-            if (index >= mm::get_array_length(array_ref))
+            if (index < 0 || index >= mm::get_array_length(array_ref))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -2975,7 +2975,7 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
-            if (index >= mm::get_array_length(array_ref))
+            if (index < 0 || index >= mm::get_array_length(array_ref))
                 __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
@@ -3012,6 +3012,9 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
+            if (index < 0 || index >= mm::get_array_length(array_ref))
+                __RaiseOutOfRangeException(ctx);
+
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pop<__value2_t>())
             );
@@ -3549,6 +3552,9 @@ namespace X_ROOT_NS::modules::exec {
                 index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
             }
 
+            if (index < 0 || index >= mm::get_array_length(array_ref))
+                __RaiseOutOfRangeException(ctx);
+
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
             );
@@ -3583,6 +3589,9 @@ namespace X_ROOT_NS::modules::exec {
 
             index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
 
+            if (index < 0 || index >= mm::get_array_length(array_ref))
+                __RaiseOutOfRangeException(ctx);
+
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
             );
-- 
2.43.0


From 8ff0b5e2f6e4a23a47483526b179d5997974408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:01 +0000
Subject: [PATCH 16/49] fix: drop what an exception thrown out of a finally
 block supersedes, keep what it does not

---
 include/modules/exec.h    | 81 +++++++++++++++++++++++++++++----------
 modules/exec/commands.cpp | 52 +++++++++++++++++--------
 2 files changed, 97 insertions(+), 36 deletions(-)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index b9f0047..3b3fe3b 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -526,6 +526,21 @@ namespace X_ROOT_NS::modules::exec {
             __release_node(this->head);
             this->head = this->head->next;
         }
+
+        // Removes an exception.
+        __AlwaysInline void remove(__node_t * node) _NE
+        {
+            for (__node_t ** p = &this->head; *p != nullptr; p = &(*p)->next)
+            {
+                if (*p == node)
+                {
+                    *p = node->next;
+                    __release_node(node);
+
+                    return;
+                }
+            }
+        }
     };
 
     ////////// ////////// ////////// ////////// //////////
@@ -666,6 +681,16 @@ namespace X_ROOT_NS::modules::exec {
         // Exception node.
         exception_node_t * exception_node;
 
+        // The group it belongs to.
+        int group = 0;
+
+        // The exception which is propagating while a finally block executing.
+        exception_node_t * pending_exception = nullptr;
+
+        // Evaluated value of the return statement that executes a finally block.
+        bool has_return_value = false;
+        rt_stack_unit_t return_value;
+
         // The action after finally block executed.
         __action_t action = __action_t::default_;
 
@@ -720,32 +745,49 @@ namespace X_ROOT_NS::modules::exec {
         using __super_t::__super_t;
 
         // Begin a block group.
-        __AlwaysInline void begin_group(__identity_t identity) _NE
+        __AlwaysInline void begin_group(__identity_t identity,
+                                        exception_node_t * pending_exception = nullptr) _NE
         {
             __old_head = this->head;
             __current  = nullptr;
             __identity = identity;
+            __pending_exception = pending_exception;
+            __group++;
         }
 
         // The end of a group.
-        // Returns true if blocks overwrited, happend when throws exceptions in finally block.
-        __AlwaysInline bool end_group() _NE
+        __AlwaysInline void end_group() _NE
         {
             if (__current != nullptr)
+                __current->next = __old_head;
+        }
+
+        // Abandons the executing finally blocks which match the condition, with all that should
+        // be done after them, happend when an exception is thrown out of finally blocks.
+        template<typename _f_t>
+        __AlwaysInline void abandon_executing(exception_stack_t & exception_stack, _f_t f) _NE
+        {
+            while (__executing != nullptr && f(__executing))
             {
-                __node_t * h = __old_head;
-                while (__old_head != nullptr && __old_head->identity == __current->identity
-                        && __current->block->include(__old_head->block))
+                __node_t * node = this->pop_executing();
+
+                for (__node_t ** p = &this->head; *p != nullptr; )
                 {
-                    __release_node(__old_head);
-                    __old_head = __old_head->next;
+                    __node_t * n = *p;
+                    if (n->group == node->group)
+                    {
+                        *p = n->next;
+                        __release_node(n);
+                    }
+                    else
+                    {
+                        p = &n->next;
+                    }
                 }
 
-                __current->next = __old_head;
-                return h != __old_head;
+                if (node->pending_exception != nullptr)
+                    exception_stack.remove(node->pending_exception);
             }
-
-            return false;
         }
 
         // Returns last node that enqueue.
@@ -797,15 +839,8 @@ namespace X_ROOT_NS::modules::exec {
 
             this->head = node->next;
 
-            if (__executing == nullptr)
-            {
-                __executing = node;
-            }
-            else
-            {
-                node->next = __executing;
-                __executing = node;
-            }
+            node->next = __executing;
+            __executing = node;
 
             return node;
         }
@@ -839,6 +874,8 @@ namespace X_ROOT_NS::modules::exec {
         __node_t * __executing = nullptr;
 
         __identity_t __identity;
+        exception_node_t * __pending_exception = nullptr;
+        int __group = 0;
 
         // Enqueue a block.
         __AlwaysInline void __enque(__block_t * block, exception_node_t * exception_node) _NE
@@ -847,6 +884,8 @@ namespace X_ROOT_NS::modules::exec {
 
             __node_t * node = this->__acquire_node(__identity, block, exception_node);
             node->next = nullptr;
+            node->group = __group;
+            node->pending_exception = __pending_exception;
 
             if (__current == nullptr)
             {
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index d65262b..f65da11 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -5809,20 +5809,28 @@ namespace X_ROOT_NS::modules::exec {
     X_ENUM_INFO_END
 
     // Process block nodes.
-    __process_block_nodes_ret __process_block_nodes(command_execute_context_t & ctx)
+    __process_block_nodes_ret __process_block_nodes(command_execute_context_t & ctx, int group)
     {
         block_node_t * node = ctx.block_queue.pick();
         if (node == nullptr)
             return __process_block_nodes_ret::empty;
 
-        if (node->identity != (block_node_identity_t *)ctx.stack.lp())
+        if (node->group != group)
             return __process_block_nodes_ret::current_empty;
 
+        // Leaves the finally blocks in the protected region.
+        exec_method_block_t * block = node->block;
+        ctx.block_queue.abandon_executing(ctx.exception_stack, [&](block_node_t * executing) {
+            return executing->identity == node->identity
+                && block->include(executing->block->entry_point);
+        });
+
         // Exception block.
         if (node->exception_node != nullptr)
         {
             ctx.block_queue.deque();
             ctx.stack.push(node->exception_node->exception);
+            ctx.exception_stack.remove(node->exception_node);
             ctx.current = node->block->entry_point;
         }
         else    // Finally block.
@@ -5837,6 +5845,11 @@ namespace X_ROOT_NS::modules::exec {
     // Pops to calling method.
     __AlwaysInline void __pop_calling(command_execute_context_t & ctx)
     {
+        // Leaves the finally blocks of current method.
+        ctx.block_queue.abandon_executing(ctx.exception_stack, [&](block_node_t * executing) {
+            return executing->identity == (block_node_identity_t)ctx.stack.lp();
+        });
+
         ctx.pop_calling();
 
         if (ctx.stack_empty())
@@ -5857,7 +5870,7 @@ namespace X_ROOT_NS::modules::exec {
 
     __continue_find__:
 
-        ctx.block_queue.begin_group(ctx.stack.lp());
+        ctx.block_queue.begin_group(ctx.stack.lp(), node);
 
         __find_block<__block_type_t::__unknown__>(ctx, [&](exec_method_block_t * block) {
 
@@ -5868,8 +5881,6 @@ namespace X_ROOT_NS::modules::exec {
                     if (__is_base_type(ctx.env, exception_type, block->relation_type))
                     {
                         ctx.block_queue.enque_catch(block, node);
-                        ctx.pop_exception();
-
                         return false;
                     }
 
@@ -5884,12 +5895,7 @@ namespace X_ROOT_NS::modules::exec {
             }
         });
 
-        if (ctx.block_queue.end_group())
-        {
-            _A(ctx.block_queue.current_executing() != nullptr);
-
-            ctx.block_queue.pop_executing();
-        }
+        ctx.block_queue.end_group();
 
         // Pop to calling method.
         block_node_t * last_node = ctx.block_queue.last_current();
@@ -5899,7 +5905,7 @@ namespace X_ROOT_NS::modules::exec {
             goto __continue_find__;
         }
 
-        __process_block_nodes(ctx);
+        __process_block_nodes(ctx, last_node->group);
     }
 
     // Process finally blocks.
@@ -5926,7 +5932,7 @@ namespace X_ROOT_NS::modules::exec {
         {
             // Executes finally blocks.
             last_node->set_next_command(next_command);
-            __process_block_nodes(ctx);
+            __process_block_nodes(ctx, last_node->group);
         }
     }
 
@@ -5947,7 +5953,16 @@ namespace X_ROOT_NS::modules::exec {
         {
             // Executes finally blocks.
             last_node->set_following_command(return_command);
-            __process_block_nodes(ctx);
+
+            // Keeps the evaluated value, exceptions in finally blocks will restore the stack.
+            rt_stack_unit_t * bottom = ctx.stack.lp() + ctx.current_method()->stack_unit_size;
+            if (ctx.stack.top() > bottom)
+            {
+                last_node->has_return_value = true;
+                last_node->return_value = *bottom;
+            }
+
+            __process_block_nodes(ctx, last_node->group);
         }
         else
         {
@@ -6036,6 +6051,13 @@ namespace X_ROOT_NS::modules::exec {
 
                 case block_node_finally_action_t::execute_following_command:
                     _A(node->following_command != nullptr);
+
+                    if (node->has_return_value)
+                    {
+                        ctx.restore_stack();
+                        ctx.stack.push(node->return_value);
+                    }
+
                     __execute_command(ctx, node->following_command);
                     return;
 
@@ -6045,7 +6067,7 @@ namespace X_ROOT_NS::modules::exec {
 
         __retry__:
 
-            switch (__process_block_nodes(ctx))
+            switch (__process_block_nodes(ctx, node->group))
             {
                 case __process_block_nodes_ret::current_empty:
                 case __process_block_nodes_ret::empty:
-- 
2.43.0


From 1a563da3ac8568fc519c9ebd5c69557c15b0f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:48 +0000
Subject: [PATCH 17/49] fix: give a second project of the same directory its
 own assembly name

---
 modules/april/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index c4a1420..d2a8ae1 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -132,7 +132,7 @@ namespace X_ROOT_NS::modules::april {
         {
             string_t dir_name0 = _F(_T("%1%%2%"), dir_name, index);
             if (!__solution->exists(dir_name0))
-                return dir_name;
+                return dir_name0;
         }
     }
 
-- 
2.43.0


From 9eae24dab8326331e84578bd18423510d5c68c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:48 +0000
Subject: [PATCH 18/49] fix: run an already compiled assembly when nothing is
 compiled in the same process

---
 include/modules/core.h           | 6 +++++-
 modules/core/assembly_reader.cpp | 3 +++
 modules/core/core.cpp            | 9 ++++++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index 74f79a7..84b57db 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -4923,6 +4923,9 @@ namespace X_ROOT_NS::modules::core {
         // Constructor
         xpool_t(memory_t * memory);
 
+        // Destructor
+        ~xpool_t();
+
         // Initialize.
         void initialize();
 
@@ -5165,7 +5168,8 @@ namespace X_ROOT_NS::modules::core {
         // cvalue_t -> cvalue_expression_t * cache.
         std::map<__cvalue_t, cvalue_expression_t *> __cvalue_expression_map;
 
-        static xpool_t * __current; 
+        static xpool_t * __current;
+        xpool_t * const __previous;
     };
 
     #define __XPool     xpool_t::current()
diff --git a/modules/core/assembly_reader.cpp b/modules/core/assembly_reader.cpp
index e3b9b13..c36550b 100644
--- a/modules/core/assembly_reader.cpp
+++ b/modules/core/assembly_reader.cpp
@@ -1376,6 +1376,9 @@ namespace X_ROOT_NS::modules::core {
     // Gets assembly type.
     assembly_type_t get_assembly_type(xistream_t & stream)
     {
+        al::xheap_t heap(_T("get_assembly_type"));
+        xpool_t xpool(&heap);       // Readers bind to the current pool, there may be none yet.
+
         assembly_t assembly(nullptr);
 
         try
diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 0bdea18..c442d73 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -5658,11 +5658,18 @@ namespace X_ROOT_NS::modules::core {
         return tcid;
     }
 
-    xpool_t::xpool_t(memory_t * memory) : memory(memory)
+    xpool_t::xpool_t(memory_t * memory) : memory(memory), __previous(__current)
     {
         __current = this;
     }
 
+    // Destructor
+    xpool_t::~xpool_t()
+    {
+        if (__current == this)
+            __current = __previous;
+    }
+
     // Initialize.
     void xpool_t::initialize()
     {
-- 
2.43.0


From eeb2ea58779e0d9d8b85a8bd7ffec407096d03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:25 +0000
Subject: [PATCH 19/49] fix: reject source code that ends inside a definition,
 accept an empty file

---
 modules/compile/analyze_tree.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index 1d504de..8deb640 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -2877,6 +2877,9 @@ namespace X_ROOT_NS::modules::compile {
             }
 #endif
 
+            // Nothing but invisible elements pushed.
+            bool empty = __leaves.size() == 1 && (*__leaves[0])->node == __tree->root;
+
             __stack_pop_args_t args(tag);
             __leaves.walk([this, &args](__stack_node_t * stack_node) {
                 return __stack_pop(args, stack_node), false;
@@ -2908,6 +2911,10 @@ namespace X_ROOT_NS::modules::compile {
             if (__leaves.size() >= 2)
                 throw _EF(__e_t::format_error, _T("conflict"));
 
+            // No branch can be closed here, the source code is incomplete.
+            if (__leaves.size() == 0 && !empty)
+                throw _EF(__e_t::parse_error, _T("unexpected end of source code"));
+
             if (__leaves.size() > 0)
                 __execute_actions();
 
@@ -4035,8 +4042,6 @@ namespace X_ROOT_NS::modules::compile {
             &__heap, ast_node, end_tag, node
         );
 
-        __item_t & item2 = __items[end_tag->index - 1];
-
         flag->next = item.flag;
         item.flag = flag;
     }
-- 
2.43.0


From 878a4c57886d354cf44c904098d22ca936aae5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:10 +0000
Subject: [PATCH 20/49] fix: skip hidden files by their name, not by the first
 character of the path

---
 modules/april/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/april/util.h b/modules/april/util.h
index d701c32..bfc7057 100644
--- a/modules/april/util.h
+++ b/modules/april/util.h
@@ -37,7 +37,7 @@ namespace X_ROOT_NS::modules::april {
 
     X_INLINE bool is_hidden_file(const __path_t & path)
     {
-        return path.string()[0] == '.';
+        return path.filename().string()[0] == '.';
     }
 
     template<typename f_t> void each_files(const __path_t & path, f_t f, bool absolute = false)
-- 
2.43.0


From 5c435ce390fce6f387eab4f8ed5d38975570b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:08 +0000
Subject: [PATCH 21/49] fix: hide the temporary file of an assembly from
 directory arguments

---
 modules/compile/compile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/compile/compile.cpp b/modules/compile/compile.cpp
index b334343..2150c2d 100644
--- a/modules/compile/compile.cpp
+++ b/modules/compile/compile.cpp
@@ -761,8 +761,8 @@ namespace X_ROOT_NS::modules::compile {
         void open(const string_t & path)
         {
             __path = lib::path_t(path);
-            __temp_path = lib::path_t(path + _T(".")
-                + boost::filesystem::unique_path("%%%%-%%%%-%%%%.tmp").wstring());
+            __temp_path = __path.parent_path() / lib::path_t(_T(".") + lib::filename(__path)
+                + boost::filesystem::unique_path(".%%%%-%%%%-%%%%.tmp").wstring());
 
             __super_t::open(lib::to_str(__temp_path), __i::out | __i::trunc | __i::binary);
             __opened = true;
-- 
2.43.0


From 36cc17fdd33b34a9f81edbf5513ffb40b2a277d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:21 +0000
Subject: [PATCH 22/49] fix: do not read the nodes of an exception stack after
 they were freed

---
 include/modules/exec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index 3b3fe3b..34147c2 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -428,8 +428,9 @@ namespace X_ROOT_NS::modules::exec {
                 __node_t * node = head;
                 while (node != nullptr)
                 {
+                    __node_t * next = node->next;
                     this->__free((void *)node);
-                    node = node->next;
+                    node = next;
                 }
 
                 while (!__node_queue.empty())
-- 
2.43.0


From 52bd5813cd6af9ebaa748756cc57b26181efdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:18 +0000
Subject: [PATCH 23/49] fix: destroy token enumerators instead of reading freed
 source code

---
 modules/compile/__token_reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/__token_reader.h b/modules/compile/__token_reader.h
index b6352f8..a5edc41 100644
--- a/modules/compile/__token_reader.h
+++ b/modules/compile/__token_reader.h
@@ -43,7 +43,7 @@ namespace X_ROOT_NS::modules::compile {
     ////////// ////////// ////////// ////////// //////////
 
     // Base class of token enumerator.
-    class token_enumerator_base_t : public token_enumerator_t, public object_t
+    class token_enumerator_base_t : public object_t, public token_enumerator_t
     {
     public:
 
-- 
2.43.0


From ea2a6d56cb2e3a77e83400beccb3c8d5408980c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:52 +0000
Subject: [PATCH 24/49] fix: keep object locks and pooled objects consistent
 when an allocation fails

---
 algorithm/__collections.h | 20 ++++++++++++++++----
 algorithm/__thread.h      | 19 +++++++++++--------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/algorithm/__collections.h b/algorithm/__collections.h
index ae6ffae..3c03122 100644
--- a/algorithm/__collections.h
+++ b/algorithm/__collections.h
@@ -565,16 +565,28 @@ namespace X_ROOT_NS::algorithm {
             {
                 obj = __creator->create(__memory);
                 _A(obj != nullptr);
+
+                try
+                {
+                    auto r = __acquired_set.insert(obj);
+                    _A(r.second);
+                }
+                catch (...)
+                {
+                    __creator->destory(__memory, obj);
+                    throw;
+                }
             }
             else
             {
                 obj = __released_queue.front();
+
+                auto r = __acquired_set.insert(obj);
+                _A(r.second);
+
                 __released_queue.pop();
             }
 
-            auto r = __acquired_set.insert(obj);
-            _A(r.second);
-
             return obj;
         }
 
@@ -588,8 +600,8 @@ namespace X_ROOT_NS::algorithm {
             if (it == __acquired_set.end())
                 throw _EC(invalid_operation, _T("not in this pool"));
 
-            __acquired_set.erase(it);
             __released_queue.push(obj);
+            __acquired_set.erase(it);
 
             if (__released_queue.size() > __capacity * 3 / 2)
             {
diff --git a/algorithm/__thread.h b/algorithm/__thread.h
index 22698a9..ed6ce64 100644
--- a/algorithm/__thread.h
+++ b/algorithm/__thread.h
@@ -194,7 +194,8 @@ namespace X_ROOT_NS::algorithm {
         // Auto create if not exists. ( when auto_create is true. )
         __mutex_wrap_t & __get_mutex_wrap(void * owner, bool auto_create=false)
         {
-            if (__exited_count >= 10)
+            // Cleaning up may fail, so leaves it to enter().
+            if (auto_create && __exited_count >= 10)
             {
                 __clean_up();
                 __exited_count = 0;
@@ -214,16 +215,18 @@ namespace X_ROOT_NS::algorithm {
         // Cleanup locks where ref_count is 0.
         void __clean_up()
         {
-            std::map<__key_t, __mutex_wrap_t *> new_map;
-            for (auto &it : __mutex_map)
+            for (auto it = __mutex_map.begin(); it != __mutex_map.end(); )
             {
-                if (it.second->ref_count == 0)
-                    __pool.release(it.second);
+                if (it->second->ref_count == 0)
+                {
+                    __pool.release(it->second);
+                    it = __mutex_map.erase(it);
+                }
                 else
-                    new_map.insert(it);
+                {
+                    ++it;
+                }
             }
-
-            std::swap(new_map, __mutex_map);
         }
     };
 
-- 
2.43.0


From e0be8e5dc8c4236a7a71678b6d1e649122744737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:13 +0000
Subject: [PATCH 25/49] fix: register languages without racing on the
 registry's pool

---
 include/modules/compile.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/modules/compile.h b/include/modules/compile.h
index 3d3887f..2a6b160 100644
--- a/include/modules/compile.h
+++ b/include/modules/compile.h
@@ -1535,7 +1535,7 @@ namespace X_ROOT_NS::modules::compile {
         template<typename _lang_t>
         lang_id_t register_lang_t(const char_t * name)
         {
-            return register_lang(name, __pool.new_obj<__simple_creator_t<_lang_t>>());
+            return register_lang(name, __new_creator<_lang_t>());
         }
 
         // Registers a language creator.
@@ -1556,6 +1556,13 @@ namespace X_ROOT_NS::modules::compile {
 
         lang_id_t __next_lang_id_value = 1;
 
+        // Creates a language creator.
+        template<typename _lang_t> lang_creator_t * __new_creator()
+        {
+            std::lock_guard<std::mutex> guard(__lock);
+            return __pool.new_obj<__simple_creator_t<_lang_t>>();
+        }
+
         // Returns next language id.
         lang_id_t __next_lang_id()
         {
-- 
2.43.0


From 9e640794cdd627974fcaecea61a6ad235bcea1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:53 +0000
Subject: [PATCH 26/49] fix: never destroy an object whose constructor failed

---
 include/common.h | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/common.h b/include/common.h
index 36f87c1..84582de 100644
--- a/include/common.h
+++ b/include/common.h
@@ -1807,6 +1807,34 @@ namespace X_ROOT_NS {
 
     //-------- ---------- ---------- ---------- ----------
 
+    // Takes the place of an object whose constructor fails, until the memory manager destroys it.
+    class __unconstructed_guard_t
+    {
+        struct __unconstructed_t : public object_t { X_TO_STRING_IMPL(_T("unconstructed")) };
+
+    public:
+        __unconstructed_guard_t(void * buffer, memory_flag_t flag)
+            : __buffer(bit_has_flag(flag, memory_flag_t::is_object)? buffer : nullptr) { }
+
+        // Calls when the constructor successed.
+        template<typename obj_t> obj_t * commit(obj_t * obj)
+        {
+            __buffer = nullptr;
+            return obj;
+        }
+
+        ~__unconstructed_guard_t()
+        {
+            if (__buffer)
+                new (__buffer) __unconstructed_t();
+        }
+
+    private:
+        void * __buffer;
+    };
+
+    //-------- ---------- ---------- ---------- ----------
+
     // An memory manager interface.
     X_INTERFACE memory_t
     {
@@ -1827,7 +1855,8 @@ namespace X_ROOT_NS {
             memory_flag_t flag = __revise_memory_flag<obj_t>();
 
             void * buffer = (obj_t *)alloc(sizeof(obj_t), flag);
-            return new (buffer) obj_t(std::forward<args_t>(args) ...);
+            __unconstructed_guard_t guard(buffer, flag);
+            return guard.commit(new (buffer) obj_t(std::forward<args_t>(args) ...));
         }
 
         // Creates an object with specified size and arguments.
@@ -1837,7 +1866,8 @@ namespace X_ROOT_NS {
             memory_flag_t flag = __revise_memory_flag<obj_t>();
 
             void * buffer = (obj_t *)alloc(size, flag);
-            return new (buffer) obj_t(std::forward<args_t>(args) ...);
+            __unconstructed_guard_t guard(buffer, flag);
+            return guard.commit(new (buffer) obj_t(std::forward<args_t>(args) ...));
         }
 
         // Static member. 
-- 
2.43.0


From c6a8f18f325c201d4892965be52b00004a63d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:40 +0000
Subject: [PATCH 27/49] fix: take the files of wildcards and directories in
 sorted order

---
 modules/april/util.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modules/april/util.h b/modules/april/util.h
index bfc7057..65cd38a 100644
--- a/modules/april/util.h
+++ b/modules/april/util.h
@@ -33,6 +33,13 @@ namespace X_ROOT_NS::modules::april {
 
             return path;
         }
+
+        // The order in which a directory lists its files is arbitrary.
+        X_INLINE std::vector<__path_t> __sorted(std::vector<__path_t> paths)
+        {
+            std::sort(paths.begin(), paths.end());
+            return paths;
+        }
     }
 
     X_INLINE bool is_hidden_file(const __path_t & path)
@@ -47,14 +54,14 @@ namespace X_ROOT_NS::modules::april {
 
         if (lib::split_path_filter(path, directory, filter))
         {
-            for (__path_t file : lib::all_files(directory, filter.c_str()))
+            for (__path_t file : __sorted(lib::all_files(directory, filter.c_str())))
             {
                 f(__revise(file, absolute));
             }
         }
         else if (__bf::is_directory(path))
         {
-            for (__path_t file : lib::all_files(path, _T("*.*")))
+            for (__path_t file : __sorted(lib::all_files(path, _T("*.*"))))
             {
                 if (!is_hidden_file(file))
                     f(__revise(file, absolute));
-- 
2.43.0


From a1f5ec80e5d427619dc2c406f644b959311414dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:44 +0000
Subject: [PATCH 28/49] fix: match + | ^ and $ of a wildcard literally

---
 include/lib.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lib.h b/include/lib.h
index 7a6175b..20f0941 100644
--- a/include/lib.h
+++ b/include/lib.h
@@ -265,7 +265,8 @@ namespace X_ROOT_NS::lib {
                 {
                     case _T('\\'): case _T('.'): case _T('['): case _T(']'):
                     case _T(':'):  case _T('('): case _T(')'):
-                    case _T('{'):  case _T('}'):
+                    case _T('{'):  case _T('}'): case _T('+'): case _T('|'):
+                    case _T('^'):  case _T('$'):
                         ss << _T('\\') << c;
                         break;
 
-- 
2.43.0


From 5b68f5b0b9edc08d2a9402bb070d50658aec4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:56 +0000
Subject: [PATCH 29/49] fix: convert array initializer elements to the element
 type

new long[] { 4, 5 } pushed 4-byte values and stored 8 bytes of each, so the
elements' upper halves were whatever the stack held.
---
 modules/compile/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 77d3b0a..606d94b 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3302,7 +3302,7 @@ namespace X_ROOT_NS::modules::compile {
 
                 // TODO: check init expression type.
 
-                element_exp->compile(ctx, pool);
+                element_exp->compile(ctx, pool, element_type);
 
                 if (this_effective)
                     pool.append<x_array_element_xil_t>(dtype);  // TODO: struct?
-- 
2.43.0


From c54538d4de2c779a67e7e7d5f9bcf4e2cbe9fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:10 +0000
Subject: [PATCH 30/49] fix: allocate arrays by the size of a variable of the
 element type

The size of an element was taken as at most one stack unit, and as the size of
the object for reference types: arrays of structs larger than 8 bytes and arrays
of references to objects smaller than 8 bytes were written past their end.
---
 include/modules/rt.h | 3 +++
 modules/mm/mm.cpp    | 4 +++-
 modules/rt/rt.cpp    | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/modules/rt.h b/include/modules/rt.h
index c219c6d..0168ad6 100644
--- a/include/modules/rt.h
+++ b/include/modules/rt.h
@@ -1516,6 +1516,9 @@ namespace X_ROOT_NS::modules::rt {
         // Dimension
         dimension_t dimension = 0;
 
+        // Size of an element in the array, determined by pre_new.
+        msize_t element_size = unknown_msize;
+
         // Gets assembly.
         virtual rt_assembly_t * get_assembly() override final;
 
diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index 2899bfc..68d2ef3 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -140,7 +140,9 @@ namespace X_ROOT_NS::modules::mm {
         dimension_t dimension = type->dimension;
 
         array_length_t length = *lengths;
-        size_t element_size = unit_align(1, type->element_type->get_size());
+        size_t element_size = type->element_size;
+        _A(element_size != unknown_msize);
+
         size_t size = _alignf(length * element_size, sizeof(rt_stack_unit_t));
 
         void * obj;
diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index bdcb780..9da6757 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1792,6 +1792,9 @@ namespace X_ROOT_NS::modules::rt {
     void rt_array_type_t::pre_new(analyzer_env_t & env)
     {
         this->pre_static_call(env);
+
+        if (element_size == unknown_msize)
+            element_size = element_type->get_variable_size(env);
     }
 
     // Pre calling static method.
-- 
2.43.0


From ab3ed5a031caa9092f8b8c35b182d4fa444eb607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:28 +0000
Subject: [PATCH 31/49] fix: copy a struct out of an array by the size of the
 struct

The copy used the size of an array reference, so assigning an array element to a
struct variable copied 8 bytes: too few, or over the next variable.
---
 modules/compile/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 606d94b..68eada3 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3026,7 +3026,7 @@ namespace X_ROOT_NS::modules::compile {
             );
 
             if (__need_object_copy(this))
-                __append_object_copy_xil(ctx, pool, array_type, xil_copy_kind_t::reverse);
+                __append_object_copy_xil(ctx, pool, element_type, xil_copy_kind_t::reverse);
         }
         else
         {
-- 
2.43.0


From e0bcf93fd70058175cb99b6e5f9cd33ae8311b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:30 +0000
Subject: [PATCH 32/49] fix: lay out block-scoped variables that mix references
 and values

The variables of inner blocks were placed from offset 0, over the references of
the method.
---
 modules/rt/layout.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index 82e1a26..af47a0d 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -617,14 +617,8 @@ namespace X_ROOT_NS::modules::rt {
     msize_t locals_layout_t::__arrange_mixture_variables(__group_t & g,
         msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end)
     {
-        using namespace std::placeholders;
-        __vector_t<__item_t *> items;
-
-        __arrange_variables_f(g, 0, it_begin, it_end, [&](msize_t offset,
-            __item_iterator_t it_begin, __item_iterator_t it_end) {
-            return std::copy(it_begin, it_end, std::back_inserter(items)), 0;
-        }, std::bind(&locals_layout_t::__arrange_mixture_variables, this, _1, _2, _3, _4));
-
+        // Variables which contain both references and values do not share memory.
+        __vector_t<__item_t *> items(g.items);
         return __set_offsets(offset, items.begin(), items.end());
     }
 
-- 
2.43.0


From 93fd92a17f6253fefd650cf8a2528e5a3ed876ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:07 +0000
Subject: [PATCH 33/49] fix: number the virtual methods of a class before its
 overrides

A virtual method declared after an override in the same class got a slot beyond
the virtual table: calling it ran another method or crashed.
---
 modules/core/assembly_writer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/core/assembly_writer.cpp b/modules/core/assembly_writer.cpp
index 82cd460..127a115 100644
--- a/modules/core/assembly_writer.cpp
+++ b/modules/core/assembly_writer.cpp
@@ -148,8 +148,10 @@ namespace X_ROOT_NS::modules::core {
             if (type->host_type != nullptr)
                 __W->__commit_type(type->host_type);
 
+            // Virtual methods first, before the methods which override those of base types.
             al::sort(type->methods, [](method_t * m1, method_t * m2) {
-                return (int)call_type_of_method(m1) < (int)call_type_of_method(m2);
+                return std::make_tuple((int)call_type_of_method(m1), m1->is_override())
+                    <  std::make_tuple((int)call_type_of_method(m2), m2->is_override());
             });
 
             __sort_members(type->fields);
-- 
2.43.0


From 28f9f5a2fc94c79bcf76b2a3ec326ce20da2ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:15 +0000
Subject: [PATCH 34/49] fix: lay out the variables of nested and sibling blocks
 without losing track of which are alive

Arranging the locals of a method walked off the list of variables when
blocks were nested beside one another, so that such methods crashed the
runtime before they started.
---
 modules/rt/__layout.h |  56 +----------
 modules/rt/layout.cpp | 214 ++++--------------------------------------
 2 files changed, 17 insertions(+), 253 deletions(-)

diff --git a/modules/rt/__layout.h b/modules/rt/__layout.h
index 3e2a71b..3eb4240 100644
--- a/modules/rt/__layout.h
+++ b/modules/rt/__layout.h
@@ -316,7 +316,6 @@ namespace X_ROOT_NS::modules::rt {
             bool region_flag = false;       // Region flag.
 
             msize_t offset;                 // Offset
-            msize_t new_index;              // The new index.
 
             // Converts to string.
             operator string_t() const;
@@ -327,72 +326,19 @@ namespace X_ROOT_NS::modules::rt {
 
         al::heap_t<__item_t> __items;
 
-        // Local variable partial.
-        struct __partial_t
-        {
-            // Constructor.
-            __partial_t(msize_t index, msize_t begin)
-                : index(index), begin(begin) { }
-
-            msize_t index, begin;
-            msize_t offset = 0;
-
-            // Converts to string.
-            operator string_t() const
-            {
-                return _F(_T("index: %1%, offset: %2%"), index, offset);
-            }
-        };
-
-        typedef al::svector_t<__partial_t *, 16> __partials_t;
-        typedef typename __partials_t::iterator __partial_iterator_t;
-
         // Local variable group.
         struct __group_t
         {
-            void append(__item_t * item);
-            void reset(msize_t index);
-
-            __self_t * __owner;
-            msize_t __index = 0;
-            bool __is_reset = true;
             storage_type_t storage_type;
-
             __vector_t<__item_t *> items;
-            __partials_t partials;
 
         } __groups[(size_t)storage_type_t::__end__];
 
-        typedef typename __vector_t<__item_t *>::iterator __item_iterator_t;
-        al::heap_t<__partial_t> __partial_heap;
-
-        // Finds reset index.
-        msize_t __find_reset_index(msize_t index, storage_type_t storage_type);
-
         // Returns current identity.
         msize_t __current_identity() { return __items.size(); }
 
         // Arrange variables.
-        template<typename _f_t, typename _caller_t>
-        msize_t __arrange_variables_f(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end,
-                    _f_t f, _caller_t caller);
-
-        // Arrange variables.
-        msize_t __arrange_variables(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end);
-
-        // Arrange mixture variables.
-        msize_t __arrange_mixture_variables(__group_t & g, msize_t offset,
-                    __partial_iterator_t it_begin, __partial_iterator_t it_end);
-
-        // The min index of specified local variable sequences.
-        msize_t __min_index(__partial_iterator_t it_begin,
-                    __partial_iterator_t it_end, msize_t * out_end);
-
-        // Sets offset.
-        msize_t __set_offsets(msize_t offset,
-                    __item_iterator_t it_begin, __item_iterator_t it_end);
+        msize_t __arrange_variables(__group_t & g, msize_t offset);
 
         // Each variable items.
         template<typename f_t> void each(f_t f)
diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index af47a0d..54b735f 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -439,29 +439,9 @@ namespace X_ROOT_NS::modules::rt {
         int storage_type = 0;
         al::for_each(__groups, [this, &storage_type](__group_t & g) {
             g.storage_type = (storage_type_t)storage_type++;
-            g.__owner = this;
         });
     }
 
-    // Finds reset index.
-    msize_t locals_layout_t::__find_reset_index(msize_t index,
-                                        storage_type_t storage_type)
-    {
-        for (int k = __items.size() - 1; k >= 0; k--)
-        {
-            __item_t & it = __items[k];
-            if (it.index > index || it.storage_type != storage_type)
-                continue;
-
-            if (it.index == index)
-                return it.new_index;
-
-            return it.new_index + 1;
-        }
-
-        return 0;
-    }
-
     // Appends a variable defination.
     void locals_layout_t::append(local_variable_defination_t & def)
     {
@@ -469,22 +449,11 @@ namespace X_ROOT_NS::modules::rt {
         rt_type_t * type = __get_type(def.type);
         msize_t size = __ctx.variable_size_of(type, &storage_type);
 
-        if (__items.size() > 0 && def.index <= __items[__items.size() - 1].index)
-        {
-            for (int k = 0; k < X_ARRAY_SIZE(__groups); k++)
-            {
-                __group_t & g = __groups[k];
-                msize_t reset_index = __find_reset_index(def.index, (storage_type_t)k);
-
-                g.reset(reset_index);
-            }
-        }
-
         __item_t * item = __items.new_obj(
             def.index, __current_identity(), size, storage_type, type
         );
 
-        __groups[(size_t)storage_type].append(item);
+        __groups[(size_t)storage_type].items.push_back(item);
     }
 
     // Converts to string.
@@ -495,195 +464,44 @@ namespace X_ROOT_NS::modules::rt {
         );
     }
 
-    // Append a iterm to a group.
-    void locals_layout_t::__group_t::append(__item_t * item)
-    {
-        item->new_index = __index++;
-        items.push_back(item);
-
-        if (__is_reset)
-        {
-            __is_reset = false;
-            msize_t new_index = item->new_index;
-
-            partials.push_back(
-                __owner->__partial_heap.new_obj(new_index, items.size() - 1)
-            );
-        }
-    }
-
-    // Resets the index.
-    void locals_layout_t::__group_t::reset(msize_t index)
-    {
-        __index = index;
-        __is_reset = true;
-    }
-
     // Commits it.
     void locals_layout_t::commit()
     {
         msize_t offset = 0;
-        for (int storage_type = 0; storage_type < (int)storage_type_t::__end__; storage_type++)
+        for (__group_t & g : __groups)
         {
-            __group_t & g = __groups[storage_type];
-            if (!g.items.empty())
-            {
-                switch ((storage_type_t)storage_type)
-                {
-                    case storage_type_t::ref:
-                    case storage_type_t::value:
-                        offset = __arrange_variables(
-                            g, offset, g.partials.begin(), g.partials.end()
-                        );
-                        break;
-
-                    case storage_type_t::mixture:
-                        offset = __arrange_mixture_variables(
-                            g, offset, g.partials.begin(), g.partials.end()
-                        );
-                        break;
-
-                    default:
-                        X_UNEXPECTED();
-                }
-            }
+            offset = __arrange_variables(g, offset);
         }
 
         __local_unit_size = unit_align(offset, sizeof(rt_stack_unit_t)) / sizeof(rt_stack_unit_t);
     }
 
     // Arrange variables.
-    template<typename _f_t, typename _caller_t>
-    msize_t locals_layout_t::__arrange_variables_f(__group_t & g,
-            msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end,
-            _f_t f, _caller_t caller)
-    {
-        __partial_t * partial = *it_begin;
-
-        msize_t end_idx;
-        msize_t child_index = __min_index(it_begin, it_end, &end_idx);
-
-        __item_iterator_t begin = g.items.begin() + partial->begin;
-        __item_iterator_t end   = (child_index != __empty_msize)?
-                  begin + (child_index - partial->index)
-                : (end_idx != __empty_msize)? g.items.begin() + end_idx : g.items.end();
-
-        msize_t new_offset = f(offset, begin, end);
-
-        if (child_index != __empty_msize)
-        {
-            msize_t max_offset = 0;
-
-            __partial_t bk = **it_begin;
-            **it_begin = __partial_t(child_index, end - g.items.begin());
-            max_offset = al::max(max_offset, caller(g, new_offset, it_begin, it_end));
-            **it_begin = bk;
-
-            for (__partial_iterator_t it = it_begin + 1; it < it_end; it++)
-            {
-                __partial_t * partial1 = *it;
-                if (partial1->index <= partial->index)
-                    break;
-
-                if (partial1->index == child_index)
-                    max_offset = al::max(max_offset, caller(g, new_offset, it, it_end));
-            }
-
-            return al::max(new_offset, max_offset);
-        }
-
-        if (it_begin + 1 < it_end)
-        {
-            return al::max(new_offset,
-                __arrange_variables_f(g, offset, it_begin + 1, it_end, f, caller)
-            );
-        }
-
-        return new_offset;
-    }
-
-    // Arrange variables.
-    msize_t locals_layout_t::__arrange_variables(__group_t & g,
-            msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end)
-    {
-        using namespace std::placeholders;
-        return __arrange_variables_f(g, offset, it_begin, it_end,
-            std::bind(&locals_layout_t::__set_offsets, this, _1, _2, _3),
-            std::bind(&locals_layout_t::__arrange_variables, this, _1, _2, _3, _4)
-        );
-    }
-
-    // Arrange mixture variables.
-    msize_t locals_layout_t::__arrange_mixture_variables(__group_t & g,
-        msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end)
+    msize_t locals_layout_t::__arrange_variables(__group_t & g, msize_t offset)
     {
         // Variables which contain both references and values do not share memory.
-        __vector_t<__item_t *> items(g.items);
-        return __set_offsets(offset, items.begin(), items.end());
-    }
+        bool share = (g.storage_type != storage_type_t::mixture);
 
-    // The min index of specified local variable sequences.
-    msize_t locals_layout_t::__min_index(__partial_iterator_t it_begin,
-                                         __partial_iterator_t it_end, msize_t * out_end)
-    {
-        __partial_t * partial = *it_begin;
+        msize_t end = offset;
+        std::vector<__item_t *> alives;   // Variables defined and not out of their blocks.
 
-        msize_t min_index = __empty_msize;
-        for (__partial_iterator_t it = it_begin + 1; it < it_end; it++)
+        for (__item_t * it : g.items)
         {
-            __partial_t * partial1 = *it;
-
-            if (partial1->index <= partial->index)
+            // The index of a variable is the count of variables alive when it is defined.
+            while (share && !alives.empty() && alives.back()->index >= it->index)
             {
-                *out_end = partial1->begin;
-                return min_index;
+                alives.pop_back();
             }
 
-            min_index = al::min(partial1->index, min_index);
-        }
-
-        *out_end = __empty_msize;
-        return min_index;
-    }
-
-    // Sets offset.
-    msize_t locals_layout_t::__set_offsets(msize_t offset,
-                            __item_iterator_t it_begin, __item_iterator_t it_end)
-    {
-        //_PF(_T("__set_offsets: %1%, %2%"), (*it_begin)->identity, (*(it_end - 1))->identity);
-
-        std::sort(it_begin, it_end, [](__item_t * it1, __item_t * it2) {
-            return it1->size > it2->size;
-        });
-
-        msize_t offset_aligned = unit_align(offset, (*it_begin)->size);
+            msize_t begin = alives.empty()? offset : alives.back()->offset + alives.back()->size;
 
-        for (; it_end > it_begin + 1 && !unit_is_aligned(offset, (*it_begin)->size); )
-        {
-            __item_t * it = *(it_end - 1);
-            msize_t offset0 = unit_align(offset, it->size) + it->size;
-            if (offset0 <= offset_aligned)
-            {
-                it->offset = offset;
-                offset = offset0;
-                //_PF(_T("* %1%: size %2% offset %3%"), it->identity, it->size, it->offset);
-                it_end--;
-            }
-
-            if (offset0 >= offset_aligned)
-                break;
-        }
-
-        for (__item_iterator_t it = it_begin; it < it_end; it++)
-        {
-            msize_t size = (*it)->size;
-            (*it)->offset = offset;
+            it->offset = unit_align(begin, it->size);
+            end = al::max(end, (msize_t)(it->offset + it->size));
 
-            offset = unit_align(offset, size) + size;
-            //_PF(_T("# %1%: size %2% offset %3%"), (*it)->identity, size, (*it)->offset);
+            alives.push_back(it);
         }
 
-        return offset;
+        return end;
     }
 
     // Returns offset of local variable identity.
-- 
2.43.0


From 5a624bced77228ada1648a199461aec107a7759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:29 +0000
Subject: [PATCH 35/49] fix: find the override of an interface method in any
 class between

A class that inherits an override of an interface method, without one of
its own, was called with the method of the class that declared it virtual.
---
 modules/rt/rt.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 9da6757..fe50f5e 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1029,14 +1029,18 @@ namespace X_ROOT_NS::modules::rt {
             rt_method_base_t * method1 = vfs[index].method;
             if (method1->is_virtual() && method1->get_owner_type(env) == nullptr)
             {
-                rt_type_t * type1 = raw_type;
-                while (type1 != type)
+                // From the base type to the raw type, until the method is hidden.
+                al::svector_t<rt_type_t *, 16> types;
+                for (rt_type_t * type1 = raw_type; type1 != type; type1 = type1->get_base_type(env))
                 {
-                    if (!__build_interface_override(analyzer, type1, vfs, index,
+                    types.push_back(type1);
+                }
+
+                for (int k = (int)types.size() - 1; k >= 0; k--)
+                {
+                    if (__build_interface_override(analyzer, types[k], vfs, index,
                                                             interface_type, prototype))
                         break;
-
-                    type1 = type1->get_base_type(env);
                 }
             }
 
-- 
2.43.0


From 0fa0defa4606027dcd84031fa423ef6cfd604b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:38 +0000
Subject: [PATCH 36/49] fix: initialize arrays of references with elements of
 the size of a reference

new string[] { "a", "b" } stored 4 bytes of each reference, so that the
elements were null or not references at all.
---
 modules/exec/commands.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index f65da11..965c187 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -7003,7 +7003,16 @@ namespace X_ROOT_NS::modules::exec {
             return 0;
         }
 
-        return size_of(xil.dtype());
+        switch (xil.dtype())
+        {
+            case xil_type_t::object:
+            case xil_type_t::string:
+            case xil_type_t::ptr:
+                return sizeof(rt_ref_t);
+
+            default:
+                return size_of(xil.dtype());
+        }
     }
 
     static command_t * __new_init_command(__context_t & ctx, const init_xil_t & xil)
-- 
2.43.0


From 53e4eda2d8775dc11d0375b774663e7671861cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:55 +0000
Subject: [PATCH 37/49] fix: convert and box the elements of an array to the
 type that is asked for

---
 modules/compile/expression.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 68eada3..d8036a0 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3033,6 +3033,14 @@ namespace X_ROOT_NS::modules::compile {
             pool.append<x_push_array_element_xil_t>(
                 __to_xil_type(element_type), array_type_ref
             );
+
+            if (is_value_type(element_type))
+            {
+                if (env.is_ref())
+                    pool.append<x_push_box_xil_t>(__ref_of(ctx, element_type));
+                else if (env.type != nullptr && is_value_type(env.type))
+                    __try_append_convert_xil(pool, __to_xil_type(element_type), env.dtype);
+            }
         }
     }
 
-- 
2.43.0


From d98e66856a31d961a1f3693b552db3d7018ebafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:55 +0000
Subject: [PATCH 38/49] fix: compile both values of a conditional expression
 for the type that is asked for

---
 modules/lang_cs/expressions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/lang_cs/expressions.cpp b/modules/lang_cs/expressions.cpp
index 70fd96d..3bb84d6 100644
--- a/modules/lang_cs/expressions.cpp
+++ b/modules/lang_cs/expressions.cpp
@@ -39,24 +39,24 @@ namespace X_ROOT_NS::modules::lang_cs {
         {
             if (condition_value == true)
             {
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
             }
             else if (condition_value == false)
             {
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
             }
             else
             {
                 condition()->compile(ctx, pool);
                 jmp_xil_t * false_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::false_);
 
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
                 jmp_xil_t * finally_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::none);
 
                 if (false_jmp_xil != nullptr)
                     xil::append_label_xil(sctx, pool, false_jmp_xil);
 
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
 
                 xil::append_label_xil(sctx, pool, finally_jmp_xil);
             }
-- 
2.43.0


From 2c5165d29a48f3c9579872a05a999bb574b8fb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:28 +0000
Subject: [PATCH 39/49] fix: find the override of an interface method that is
 itself an override

---
 modules/rt/rt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index fe50f5e..e2df7e9 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1027,7 +1027,8 @@ namespace X_ROOT_NS::modules::rt {
             }
 
             rt_method_base_t * method1 = vfs[index].method;
-            if (method1->is_virtual() && method1->get_owner_type(env) == nullptr)
+            if ((method1->is_virtual() || method1->is_override())
+                                            && method1->get_owner_type(env) == nullptr)
             {
                 // From the base type to the raw type, until the method is hidden.
                 al::svector_t<rt_type_t *, 16> types;
-- 
2.43.0


From 1c7ee883d26e5abf9f84c2cd56bfcfb05d23d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:17 +0000
Subject: [PATCH 40/49] fix: tell parser states apart by every bit of their
 addresses

Two parser states were merged when the sum of their shifted addresses was the same,
which depends on where the heap lies: about one compilation in 2000 of a valid
program failed with a syntax error.
---
 modules/compile/analyze_tree.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index 8deb640..5f4d89d 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -153,15 +153,26 @@ namespace X_ROOT_NS::modules::compile {
         return __owner_branch(unit)->key.value;
     }
 
+    // Mixes a value into a merge identity, that depends on every bit of both.
+    __AlwaysInline __merge_identity_t __mix_merge_identity(__merge_identity_t id,
+                                                           const void * value)
+    {
+        uint64_t v = (uint64_t)id * 0x9E3779B97F4A7C15ull + (uint64_t)(arch_uint_t)value;
+
+        v = (v ^ (v >> 30)) * 0xBF58476D1CE4E5B9ull;
+        v = (v ^ (v >> 27)) * 0x94D049BB133111EBull;
+
+        return (__merge_identity_t)(v ^ (v >> 31));
+    }
+
     // Sets merge identity.
     __AlwaysInline void __set_merge_identity(__stack_node_t * s)
     {
-        __merge_identity_t id = ((__merge_identity_t)(*s)->current << 3)
-                                ^ (__merge_identity_t)(*s)->node;
-
         __stack_node_t * p = s->parent;
-        if (p != nullptr)
-            id ^= (((*p)->merge_identity) << 7);
+        __merge_identity_t id = p != nullptr? (*p)->merge_identity : 0;
+
+        id = __mix_merge_identity(id, (*s)->current);
+        id = __mix_merge_identity(id, (*s)->node);
 
         (*s)->merge_identity = id;
     }
-- 
2.43.0


From 354ba42bbb19731211f5ce31c688c12b80d89adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 41/49] fix: a delegate of a static method left its object slot
 on the stack

---
 include/modules/exec.h    | 11 +++++++++++
 modules/exec/commands.cpp |  4 ++++
 modules/exec/parser.cpp   |  2 ++
 3 files changed, 17 insertions(+)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index 34147c2..ca50fc9 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -950,6 +950,7 @@ namespace X_ROOT_NS::modules::exec {
         uint16_t    ref_objects;
         msize_t     stack_unit_size;
         msize_t     this_offset;
+        msize_t     param_unit_size;
 
     private:
         // Commands.
@@ -1051,6 +1052,16 @@ namespace X_ROOT_NS::modules::exec {
             this->current = method->get_commands();
         }
 
+        // Removes the unit at the offset below local variables, from a frame just switched to.
+        __AlwaysInline void remove_unit(msize_t offset) _NE
+        {
+            rt_stack_unit_t * lp = stack.lp();
+            std::copy(lp - offset + 1, lp, lp - offset);
+
+            stack.set_lp(lp - 1);
+            stack.increase_top(-1);
+        }
+
         // Returns whether stack is on head.
         __AlwaysInline bool stack_empty() _NE
         {
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 965c187..9e40958 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4673,6 +4673,10 @@ namespace X_ROOT_NS::modules::exec {
             __Argument(rt_object_t *, __this_offset) = object;
             ctx.switch_to(exec_method);
 
+            // A static method has no this argument, and does not pop it.
+            if (exec_method->param_unit_size + __stack_stub_size < __This->__this_offset)
+                ctx.remove_unit(__This->__this_offset);
+
         __EndExecute()
 
         #if EXEC_TRACE
diff --git a/modules/exec/parser.cpp b/modules/exec/parser.cpp
index 84c9c38..d14a643 100644
--- a/modules/exec/parser.cpp
+++ b/modules/exec/parser.cpp
@@ -203,6 +203,7 @@ namespace X_ROOT_NS::modules::exec {
         __exec_method->ref_objects = ref_objects;
         __exec_method->stack_unit_size = locals_layout.unit_size();
         __exec_method->this_offset = this_offset;
+        __exec_method->param_unit_size = params_layout.unit_size();
     }
 
     // Parse method commands.
@@ -337,6 +338,7 @@ namespace X_ROOT_NS::modules::exec {
         __exec_method->ref_objects = ref_objects;
         __exec_method->stack_unit_size = locals_layout.unit_size();
         __exec_method->this_offset = this_offset;
+        __exec_method->param_unit_size = params_layout.unit_size();
     }
 
     // Parse dynamic commands.
-- 
2.43.0


From 6792d9f6d1fa8291d1b33282052044ebdd0c7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 42/49] fix: a method named alone makes a delegate of this
 object

---
 modules/compile/expression.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index d8036a0..6354e18 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2028,6 +2028,14 @@ namespace X_ROOT_NS::modules::compile {
             }   break;
 
             case variable_type_t::method:
+
+                // The method name alone, its object is this.
+                if (method_t * method = ((method_variable_t *)variable)->method; method != nullptr
+                    && !method->is_static() && !__is_member_expression(owner_exp->parent))
+                {
+                    pool.append<x_push_this_ref_xil_t>();
+                }
+
                 __compile_method_variable(ctx, pool, (method_variable_t *)variable, env,
                     __left_is_base(owner_exp->parent)? xil_call_type_t::instance
                                                      : xil_call_type_t::empty
-- 
2.43.0


From 27628ccda57fcad76a341a3f4067a1c5517f7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:59 +0000
Subject: [PATCH 43/49] fix: indexes of a struct element were compiled as
 values of the struct

---
 modules/compile/expression.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 6354e18..17090f0 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -433,8 +433,7 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(var->arguments, "index '%1%' arguments missing", var);
                 __FailedWhenNull(var->body, "index '%1%' body missing", var);
 
-                __static_param_types_t param_types(var);
-                __compile_arguments(ctx, pool, var->arguments, &param_types);
+                __compile_arguments(ctx, pool, var->arguments);
                 var->body->compile(ctx, pool);
 
                 pool.append<x_push_array_element_addr_xil_t>(
-- 
2.43.0


From 6045d39cfda95845c24b6ecca5532238a9c8a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:30 +0000
Subject: [PATCH 44/49] fix: a circular import ended the compiler with a null
 dereference

---
 modules/april/compiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index d2a8ae1..6170e6b 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -490,7 +490,8 @@ namespace X_ROOT_NS::modules::april {
     // Commits it.
     void april_xcompiler_t::__project_cassembly_t::commit()
     {
-        if (project->assembly->has_entry_point())
+        // No assembly if the project cannot be compiled, e.g. the assemblies reference each other.
+        if (project->assembly != nullptr && project->assembly->has_entry_point())
             __executable = __executable_yes;
         else
             __executable = __executable_no;
-- 
2.43.0


From 2b850fa0feb29639ea54a3872f15dc9dab436548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:30 +0000
Subject: [PATCH 45/49] fix: a file pattern without a directory did not look in
 the current one

---
 lib/file.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/file.cpp b/lib/file.cpp
index fd65ae8..6fbccdf 100644
--- a/lib/file.cpp
+++ b/lib/file.cpp
@@ -402,11 +402,16 @@ namespace X_ROOT_NS::lib {
         size_t index = spath.find_last_of(_T("/"));
 
         auto npos = string_t::npos;
-        if (index == npos || spath.find_first_of(_T("?*"), index + 1) == npos)
+        size_t filter_index = (index == npos)? 0 : index + 1;
+        if (spath.find_first_of(_T("?*"), filter_index) == npos)
             return false;
 
-        out_dir = path_t(spath.substr(0, index));
-        out_filter = spath.substr(index + 1);        
+        if (index == npos)
+            out_dir = path_t(_T("."));
+        else
+            out_dir = path_t(spath.substr(0, (index == 0)? 1 : index));
+
+        out_filter = spath.substr(filter_index);
 
         return true;
     }
-- 
2.43.0


From b66e35c7e45e24c72f2226e3fb3b2be663433257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:30 +0000
Subject: [PATCH 46/49] fix: a local variable declared twice ended the compiler
 with a null dereference

---
 modules/compile/ast.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 00d953a..e43435b 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -3990,6 +3990,9 @@ namespace X_ROOT_NS::modules::compile {
         for (int index = 0, count = this->items.size(); index < count; ++index)
         {
             defination_statement_item_t * var_item = this->items[index];
+            if (var_item->variable == nullptr)      // Cannot be defined, e.g. duplicate.
+                continue;
+
             if (__is_uncertain(var_item->variable->type_name))
             {
                 type_t * type = nullptr;
-- 
2.43.0


From 615b4558cf002afe32c838376c153fccf27beda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:57 +0000
Subject: [PATCH 47/49] fix: a syntax error after a complete definition ended
 the compiler with a crash

---
 modules/compile/analyze_tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index 5f4d89d..d259ccc 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -3781,6 +3781,9 @@ namespace X_ROOT_NS::modules::compile {
     void analyze_context_t::__detect_check_end_node(__node_keys_t & out_keys,
         __stack_node_t * parent, __stack_node_t * current, __node_unit_t end_unit)
     {
+        if (__is_root(__owner_branch(end_unit)))
+            return;
+
         __node_value_t end_node_value = __owner_branch_value(end_unit);
         __node_key_t ref_key = to_branch_ref_key(end_node_value);
         analyze_normal_path_node_t * parent_current = (*parent)->current;
-- 
2.43.0


From c2252342f6b40e40582f2a312d01b07fafe3d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:57 +0000
Subject: [PATCH 48/49] fix: keys of branches were looked up as tokens when
 recovering from a syntax error

---
 modules/compile/analyze_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index d259ccc..44a009b 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -3166,7 +3166,7 @@ namespace X_ROOT_NS::modules::compile {
             }
             else
             {
-                if (__is_invisible(key))
+                if (key.type == __node_type_t::token && __is_invisible(key.value))
                 {
                     __path_node_stack_t stack(value.node, 1);
                     stack.normal_count = 1;
-- 
2.43.0


From ee96e2ebd2917f041e7547537516e7a7787f68f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:57 +0000
Subject: [PATCH 49/49] fix: actions of a kept parser state were reused after
 it was restored

---
 modules/compile/__analyze_tree.h | 3 +++
 modules/compile/analyze_tree.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/compile/__analyze_tree.h b/modules/compile/__analyze_tree.h
index 4cf9c9d..6d74dc3 100644
--- a/modules/compile/__analyze_tree.h
+++ b/modules/compile/__analyze_tree.h
@@ -1682,6 +1682,9 @@ namespace X_ROOT_NS::modules::compile {
         al::heap_t<__stack_node_assign_key_action_t> __assign_key_action_factory;
         al::heap_t<__stack_node_raise_matched_event_action_t> __raise_matched_event_action_factory;
 
+        // Kept states may refer to the actions, they could not be reused since restored.
+        bool __restored = false;
+
         __leaves_t __leaves;                            // Leaves
         analyze_matched_items_t __matched_items;        // Matched items.
 
diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index 44a009b..2b680c4 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -2817,6 +2817,7 @@ namespace X_ROOT_NS::modules::compile {
 
         __matched_items.clear();
         __clear_actions();
+        __restored = false;
     }
 
     // Matches the next token.
@@ -3304,6 +3305,8 @@ namespace X_ROOT_NS::modules::compile {
 
         _A(state.__matched_item_count <= __matched_items.size());
         __matched_items.resize(state.__matched_item_count);
+
+        __restored = true;
     }
 
     // Record stack units.
@@ -3674,7 +3677,8 @@ namespace X_ROOT_NS::modules::compile {
                 leaf = leaf->parent;
             }
 
-            __clear_actions();
+            if (!__restored)
+                __clear_actions();
         }
     }
 
-- 
2.43.0

