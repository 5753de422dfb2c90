From 7f3c82bd8d9f5a3db10d4c26f53806435b8aae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 01/30] fix: squashSpaces must not look at the ends of an empty
 string

front()/back()/pop_back() on a string that is empty, or was all spaces, read
and write outside the string.
---
 src/Split.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Split.cxx b/src/Split.cxx
index 3491f38..ad21f63 100644
--- a/src/Split.cxx
+++ b/src/Split.cxx
@@ -45,8 +45,8 @@ namespace SoDa {
     size_t pos = 0;
 
     // trim the string. 
-    while(ret.front() == ' ') ret.erase(0, 1);
-    while(ret.back() == ' ') ret.pop_back();
+    while(!ret.empty() && (ret.front() == ' ')) ret.erase(0, 1);
+    while(!ret.empty() && (ret.back() == ' ')) ret.pop_back();
     
     while((pos = ret.find(' ', pos)) != std::string::npos) {
       if((pos < ret.length() - 1) && (ret[pos+1] == ' ')) {
-- 
2.43.0


From 428243ae26ed7347cc2f11a0441f56d6f81e3710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 02/30] fix: getPosArg reads past the end when asked for index
 numPosArgs()

---
 src/Options.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 59fa849..295ad5f 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -78,7 +78,7 @@ namespace SoDa {
   }
 
   std::string Options::getPosArg(int idx) {
-    if(idx > pos_arg_vec.size()) return std::string("");
+    if((idx < 0) || (idx >= numPosArgs())) return std::string("");
     else return pos_arg_vec[idx]; 
   }
 
-- 
2.43.0


From ef6231dea2cf8851d0eddb97a2af4fd9b2a2faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 03/30] fix: a refused command line must not change how the
 next one is read

waiting_for_signed was left set when parse gave up on a signed option, so a
later call took its first switch for a positional argument.
---
 src/Options.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index 295ad5f..e5017fb 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -175,6 +175,8 @@ namespace SoDa {
 
   bool Options::parse(std::list<std::string> tokens) {
     OptBase_p arg_p = nullptr;
+    // a previous call may have given up while waiting for a value.
+    waiting_for_signed = false; 
     try {
     while(!tokens.empty()) {
       std::string tkn = tokens.front();
-- 
2.43.0


From f8ddadcbd7dd25adca6dabbe2cca0f2ed86d3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 04/30] fix: an option may follow a signed option that keeps
 its default

While waiting for the value of a signed option every token was taken to be
that value, so "-i -p" was refused when -i has a default.
---
 src/Options.cxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index e5017fb..e1ce581 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -132,10 +132,11 @@ namespace SoDa {
   }
 
   int Options::isSwitch(const std::string & tkn) {
-    if(waiting_for_signed) return 0;
-    
     if(tkn.length() < 2) return 0;
 
+    // a negative number is the value that a signed option is waiting for. 
+    if(waiting_for_signed && (tkn[0] == '-') && 
+       (isdigit((unsigned char) tkn[1]) || (tkn[1] == '.'))) return 0;
     
     // does it start with anything other than - ? 
     if(tkn[0] != '-') {
@@ -209,7 +210,6 @@ namespace SoDa {
       else {
 	if(arg_p != nullptr) {
 	  arg_p->setPresent(); 
-	  waiting_for_signed = arg_p->is_signed; 
 	}
 	
 	arg_p = nullptr;
@@ -233,9 +233,7 @@ namespace SoDa {
 	  throw BadOptionNameException(tkn); 
 	}
 
-	if(arg_p->is_signed) {
-	  waiting_for_signed = true; 
-	}
+	waiting_for_signed = arg_p->is_signed; 
 
 	if(arg_p->isPresentOpt()) {
 	  arg_p->setPresent();
-- 
2.43.0


From a3227cef071d945e5bbbccdad60c62841b910cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 05/30] fix: do not forget an option at the end of the command
 line

The last option was dropped when no value followed it: one with a default was
not reported present, and one that needs a value was silently accepted.
---
 src/Options.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index e1ce581..496780e 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -241,6 +241,14 @@ namespace SoDa {
 	}
       }
     }
+
+    // did the line end with an option that is still looking for its value? 
+    if(arg_p != nullptr) {
+      if(!arg_p->hasDefault()) {
+	throw BadOptValueException(arg_p->long_name, "", "No value was supplied."); 
+      }
+      arg_p->setPresent(); 
+    }
     }
     catch (BadOptValueException & exc) {
       std::cerr << exc.what() << "\n";
-- 
2.43.0


From baa19e906d3930598456b2e350becd6e3853c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 06/30] fix: vector options of signed types take negative
 values

---
 include/Options.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Options.hxx b/include/Options.hxx
index 0f35472..993d612 100644
--- a/include/Options.hxx
+++ b/include/Options.hxx
@@ -586,7 +586,7 @@ posargs =
 	     const std::string & doc_str, 
 	     const std::function<bool(T)> & test_func = allGood, 
 	     const std::string & err_msg = std::string("")) :
-	OptBase(doc_str, err_msg, false), 
+	OptBase(doc_str, err_msg, std::is_signed<T>::value), 
 	argvec_p(v_vec), 
 	test_func(test_func)
       {
-- 
2.43.0


From a409d3fb42239c4ba314d58139228c21b00c7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 07/30] fix: key=value lists with empty items, empty values, or
 '=' in a value

An empty item crashed, "a=" gave a the value "a", "a=x=y" gave it "y", and
a value like "-q" was taken for a command line switch.
---
 src/Options.cxx | 61 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 496780e..64bdc29 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -317,26 +317,51 @@ namespace SoDa {
   bool Options::parseKeyValue(const std::list<std::string> & l_kvp) {
     // for each item in the kvp list,
     // trim the item,
-    // add the pair to a token list
-    std::list<std::string> tknlist; 
-    
-    for(auto kv_a : l_kvp) {
-      auto kv = SoDa::squashSpaces(kv_a);
+    // and set the named option
+    try {
+      for(auto kv_a : l_kvp) {
+	auto kv = SoDa::squashSpaces(kv_a);
+
+	// doubled, leading, or trailing commas leave empty items
+	if(kv.empty()) continue; 
       
-      // now we've got a key=value pair.  Split that at the =
-      auto kvp = SoDa::split(kv, std::string("="));
-      auto key = kvp.front();
-      auto value = kvp.back();
-
-      // ok. now we're going to re-use some stuff from the "parse a
-      // command line" functions
-      key = "--" +  key;
-
-      tknlist.push_back(key);
-      tknlist.push_back(value);
-      // find the option name
+	// now we've got a key=value pair.  Split that at the first =
+	// (the value may contain some more of them, or be empty)
+	auto eq_pos = kv.find('=');
+	auto key = kv.substr(0, eq_pos);
+
+	if(key == "help") {
+	  printHelp(std::cerr);
+	  return false; 
+	}
+
+	// find the option name
+	auto arg_p = findOpt(key);
+	if(arg_p == nullptr) {
+	  throw BadOptionNameException(key); 
+	}
+
+	if(eq_pos != std::string::npos) {
+	  arg_p->setVal(kv.substr(eq_pos + 1));
+	}
+	else if(arg_p->hasDefault()) {
+	  arg_p->setPresent(); 
+	}
+	else {
+	  throw BadOptValueException(key, "", "No value was supplied."); 
+	}
+      }
+    }
+    catch (BadOptValueException & exc) {
+      std::cerr << exc.what() << "\n";
+      return false; 
+    }
+    catch (BadOptionNameException & exc) {
+      std::cerr << exc.what() << "\n";
+      printHelp(std::cerr);
+      return false; 
     }
 
-    return parse(tknlist);    
+    return true; 
   }
 }
-- 
2.43.0


From 69f050356ebab48a29e2e131ad679f6657771e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 08/30] fix: property lookup must descend along the path

getPropRecursive looked up every part of the path in the starting node's
dictionary and then returned that starting node.
---
 src/PropertyTree.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 9494a63..744d38a 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -73,8 +73,9 @@ namespace SoDa {
       return this; 
     }
     else if(dictionary.find(pathlist.front()) != dictionary.end()) {
+	PropNode * next = dictionary[pathlist.front()];
 	pathlist.pop_front();
-	return getPropRecursive(pathlist, orig_pathname, throw_exception);
+	return next->getPropRecursive(pathlist, orig_pathname, throw_exception);
     }
     else {
       if(throw_exception) {
-- 
2.43.0


From be55004b369b528f58c454b27b4d536356b6f252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 09/30] fix: get must not throw on a missing path when
 exceptions are off

---
 include/PropertyTree.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 36b7fb4..3235e68 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -133,7 +133,8 @@ namespace SoDa {
       PropNode * pn = root->getProp(pathname, throw_exception); 
       
       if(pn == nullptr) {
-	throw PropNode::PropertyNotFound(pathname); 
+	// getProp has thrown PropertyNotFound already, if we wanted it.
+	return false; 
       }
       
       return pn->get<T>(v, throw_exception);
-- 
2.43.0


From ed4f8b2f5c5eaf9aba013d45151cae362879d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 10/30] fix: a property read as a string is the whole value

Values with blanks were cut at the first one and empty values were refused.
---
 include/PropertyTree.hxx | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 3235e68..9a76479 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -167,9 +167,8 @@ namespace SoDa {
        * @throws SoDa::PropertyTree::BadPropertyType
        */
       template<typename T> bool get(T & v, bool throw_exception = false) {
-	std::stringstream ss(val_string, std::ios_base::in);
-	ss >> v; 
-	if(ss.fail()) {
+	// only the leaves of the tree have a value. 
+	if(!is_terminal || !readVal(v)) {
 	  if(throw_exception) {
 	    throw PropertyTree::PropNode::BadPropertyType(getPathName(), typeid(v).name(), val_string);
 	      }
@@ -237,6 +236,22 @@ namespace SoDa {
       }; 
       
     protected: 
+      /**
+       * @brief convert the value string to the type of v
+       * @returns false if the value string can't be read as a T
+       */
+      template<typename T> bool readVal(T & v) {
+	std::stringstream ss(val_string, std::ios_base::in);
+	ss >> v; 
+	return !ss.fail(); 
+      }
+
+      /// a string is the whole value string, not just its first word. 
+      bool readVal(std::string & v) {
+	v = val_string;
+	return true; 
+      }
+      
       /**
        * @brief get a property node from this node's dictionary
        * @param pathlist the original pathname split into 
-- 
2.43.0


From d291bc404eb99687f872cc0df459f17d0cebcf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 11/30] fix: getPathName must be made of keys, so that it leads
 to the node

It was put together from the values of the nodes.
---
 src/PropertyTree.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 744d38a..7367f26 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -40,7 +40,14 @@ namespace SoDa {
   std::string PropertyTree::PropNode::getPathName() {
     std::string ret;
     if(parent != nullptr) {
-      ret = parent->getPathName() + ":" + val_string;
+      ret = parent->getPathName();
+      if(!ret.empty()) ret = ret + ":";
+      // use the key that leads from the parent to this node.
+      for(auto & d : parent->dictionary) {
+	if(d.second == this) return ret + d.first; 
+      }
+      // list elements have no key.
+      ret = ret + val_string;
     }
     
     return ret; 
-- 
2.43.0


From 10c5a4beede29b4f1e69eb188e7b91d4853c9ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 12/30] fix: BadPropertyType message names the type

---
 src/PropertyTree.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 7367f26..5ad1bb1 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -161,7 +161,7 @@ namespace SoDa {
   PropertyTree::PropNode::BadPropertyType::BadPropertyType(const std::string & path_name, 
 							   const std::string & type_name, 
 							   const std::string & val_string) :
-    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"2\"")
+    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"%2\"")
 	      .addS(path_name)
 	      .addS(val_string)
 	      .addS(type_name)
-- 
2.43.0


From de4d93b8864eca95e8d50c560518158fcc022e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 13/30] fix: malformed YAML is reported as
 PropertyTree::BadSyntax, and not loaded

The documented exception did not exist: yaml-cpp's own exceptions escaped, and
some of them left the tree with a part of the file in it.
---
 include/PropertyTree.hxx |  5 +++++
 src/PropertyTree.cxx     |  9 +++++++++
 src/PropertyTreeYAML.cxx | 21 ++++++++++++++++++---
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 9a76479..3c0617d 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -276,6 +276,11 @@ namespace SoDa {
       FileNotFound(const std::string & fname);
     }; 
 
+    class BadSyntax : public SoDa::Exception {
+    public:
+      BadSyntax(const std::string & fname, const std::string & problem);
+    }; 
+
   protected:
     PropNode * root; 
   };
diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 5ad1bb1..a636f78 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -151,6 +151,15 @@ namespace SoDa {
 	      .addS(str).str())
   {
   }
+
+  PropertyTree::BadSyntax::BadSyntax(const std::string & fname, const std::string & problem) :
+    Exception(SoDa::Format("PropertyTree::BadSyntax in \"%0\" : %1")
+	      .addS(fname)
+	      .addS(problem)
+	      .str())
+  {
+  }
+
   PropertyTree::PropNode::PropertyNotFound::PropertyNotFound(const std::string & str) :
     Exception(SoDa::Format("PropertyTree::PropNode::PropertyNotFound \"%0\"")
 	      .addS(str)
diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index d73b2ac..67df11b 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -44,15 +44,30 @@ namespace SoDa {
   void PropertyTreeYAML::readFile(const std::string & filename) {
     YAML::Node TopNode; ///< the root node for the current file. 
     
+    // nothing goes into the tree unless the whole file is good. 
+    PropertyTree::PropNode top(nullptr, "", false); 
+    
     try {
       TopNode = YAML::LoadFile(filename);
+
+      // now recursively create the tree
+      fillRecurse(TopNode, &top);
     }
     catch(YAML::BadFile & e) {
       throw PropertyTree::FileNotFound(e.what());
     }
-    
-    // now recursively create the tree
-    fillRecurse(TopNode, root);
+    catch(YAML::Exception & e) {
+      throw PropertyTree::BadSyntax(filename, e.what());
+    }
+
+    for(auto & d : top.dictionary) {
+      d.second->parent = root;
+      root->dictionary[d.first] = d.second;
+    }
+    for(auto p : top.prop_list) {
+      p->parent = root;
+      root->prop_list.push_back(p); 
+    }
   }
   
   void PropertyTreeYAML::fillRecurse(const YAML::Node & node,
-- 
2.43.0


From 903c5d5df3c2eda4186c047e2a4edab4241e2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 14/30] fix: load sequences of sequences, and files that are a
 sequence

fillRecurse took their elements for key/value pairs, and yaml-cpp threw
InvalidNode.
---
 src/PropertyTreeYAML.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 67df11b..ee62bae 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -80,6 +80,13 @@ namespace SoDa {
       prop->prop_list.push_back(pnp); 
       return; 
     }
+    if(node.IsSequence()) {
+      // a sequence inside a sequence, or at the top of the file. 
+      for(auto n : node) {
+	fillRecurse(n, prop);
+      }
+      return; 
+    }
     for(YAML::const_iterator it = node.begin(); 
 	it != node.end(); 
 	++it) {
-- 
2.43.0


From cf43f74bb273c88eb17b8b96f7ca55e000f93003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 15/30] fix: refuse YAML aliases that refer to their own
 collection

fillRecurse followed them until the stack was used up.
---
 src/PropertyTreeYAML.cxx | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index ee62bae..6edf678 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -41,6 +41,22 @@ namespace SoDa {
     readFile(filename); 
   }
 
+  // An alias can refer to a collection that it is a part of. 
+  // There is no end to such a tree, so we can't load it. 
+  static void refuseLoops(const YAML::Node & node, std::list<YAML::Node> & path) {
+    if(!node.IsMap() && !node.IsSequence()) return; 
+    for(auto & p : path) {
+      if(p.is(node)) {
+	throw YAML::Exception(node.Mark(), "alias refers to a collection that contains it"); 
+      }
+    }
+    path.push_back(node);
+    for(auto n : node) {
+      refuseLoops(node.IsMap() ? n.second : n, path); 
+    }
+    path.pop_back(); 
+  }
+  
   void PropertyTreeYAML::readFile(const std::string & filename) {
     YAML::Node TopNode; ///< the root node for the current file. 
     
@@ -50,6 +66,9 @@ namespace SoDa {
     try {
       TopNode = YAML::LoadFile(filename);
 
+      std::list<YAML::Node> path; 
+      refuseLoops(TopNode, path); 
+
       // now recursively create the tree
       fillRecurse(TopNode, &top);
     }
-- 
2.43.0


From 694b49ec9568d69d1cf9693af46db627397100ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 16/30] fix: Barrier::wait must look at the barrier count under
 the lock

It was read before the lock was taken. A thread that was late could join the
next round with the count of the previous one, and leave without waiting.
---
 src/Barrier.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index ca3d689..3acd44d 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -54,11 +54,13 @@ namespace SoDa {
       return wait(std::chrono::seconds(3600 * 24 * 1000));
     }
     
-    // bump the waiting count
-    auto old_barrier_count = barrier_count; 
     {
       std::unique_lock<std::mutex> lock(mtx);
       
+      // this must be the count of the round that we join below.
+      auto old_barrier_count = barrier_count; 
+
+      // bump the waiting count
       waiting++; 
       if(waiting == num_waiters) {
 	// reset -- nobody will be waiting anymore
-- 
2.43.0


From d16c7e2239a9adef807902e20170863e150ccaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 17/30] fix: after a Barrier timeout all other waiters get
 Corrupt

The other waiters returned normally, and later callers went on to wait for
their own timeout.
---
 src/Barrier.cxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index 3acd44d..9d61b3e 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -57,6 +57,11 @@ namespace SoDa {
     {
       std::unique_lock<std::mutex> lock(mtx);
       
+      // nobody can rely on the barrier after a timeout.
+      if(corrupted) {
+	throw Barrier::Corrupt(*this);
+      }
+
       // this must be the count of the round that we join below.
       auto old_barrier_count = barrier_count; 
 
@@ -76,11 +81,11 @@ namespace SoDa {
 	bool is_ok = cv.wait_for(lock, 
 				 timeout,
 				 [old_barrier_count, this]() {
-				   return old_barrier_count != barrier_count; 
+				   return corrupted || (old_barrier_count != barrier_count); 
 				 });
 	
-	// if the barrier hasn't advanced, then we timed out.
-	if (!is_ok) {
+	// if the barrier hasn't advanced, then we, or somebody else, timed out.
+	if (!is_ok || (old_barrier_count == barrier_count)) {
 	  // that's really bad, as we've got a broken barrier.
 	  // If we return it will be truly broken, and everyone will
 	  // hang. Though it is likely that everyone is hung already.
@@ -91,8 +96,7 @@ namespace SoDa {
 	  else {
 	    // we're the first one to timout. 
 	    corrupted = true; 
-	    // set the barrier count to infinity, and wake everyone up
-	    barrier_count = 0xffffffff;
+	    // wake everyone up
 	    cv.notify_all();
 	    throw Barrier::Timeout(*this, timeout);
 	  }
-- 
2.43.0


From 6eda56c05ace66642558145f94e55aa0d1e091d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 18/30] fix: a subscription that was ended by unsubscribe can
 be destroyed

The destructor threw MissingSubscriber and terminated the program.
---
 include/MailBox.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 81ec389..66f4868 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -276,7 +276,12 @@ namespace SoDa {
       }
 
       ~SubscriptionCl() {
-	this_mbox->unsubscribe(subscriber_index);
+	try {
+	  this_mbox->unsubscribe(subscriber_index);
+	}
+	catch(MissingSubscriber & e) {
+	  // the subscription was ended by a call to unsubscribe. 
+	}
       }
 
       int getIndex(MailBox<T> * mbox) const {
-- 
2.43.0


From 257608d0b49ab05a0f51594885350a05b70bfa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 19/30] fix: addI must not put a separator between the sign and
 the first digit

-123456 was printed as -,123,456
---
 src/Format.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 81c5fe9..43580ac 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -162,7 +162,8 @@ namespace SoDa {
       std::string newstr;
       int i = 0; 
       for(auto c : vstr) {
-	if(i == 3) {
+	// no separator between the sign and the first digit
+	if((i == 3) && (c != '-')) {
 	  newstr = sep + newstr;
 	  i = 0; 
 	}
-- 
2.43.0


From 9f469796bfeea97cdc1b4941b1ee2eb2220c39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 20/30] fix: addU must not put separators between padding
 blanks

100 with width 10 and separator ',' was printed as "  ,   ,100"
---
 src/Format.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 43580ac..6eefaf9 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -211,7 +211,6 @@ namespace SoDa {
     case 'd':
     case 'D':
     default:
-      if(w != 0) pre_ss << std::setw(w);
       pre_ss << std::dec << v; 
       valstr = pre_ss.str();
       prefix = "";		
@@ -249,6 +248,11 @@ namespace SoDa {
       result = prefix + newstr; 
     }
 
+    // hex and octal are filled with zeros. Pad the decimal number
+    // when it is complete, so that no blanks end up in its groups.
+    if(not_hex && not_oct && (result.size() < w)) {
+      result.insert(0, w - result.size(), ' '); 
+    }
     
     insertField(result);
     return *this;     
-- 
2.43.0


From 45608cdd8183ad9ce3c903ecdabba3046455956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 21/30] fix: negative infinity prints as -inf

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 6eefaf9..d8a3170 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -410,7 +410,7 @@ namespace SoDa {
       return *this;
     }
     else if (std::isinf(v)) {
-      insertField(pad("inf", width));
+      insertField(pad((v < 0) ? "-inf" : "inf", width));
       return *this;
     }
     
-- 
2.43.0


From bc2fbd04371b7ac09b605d0af3a95a4921c7ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 22/30] fix: engineering notation must terminate, and print
 what the value rounds to

1.7e308 with one digit looped forever, more than 11 digits overflowed an int
(3.00-1412671782e+0), 9.95 with two digits was 10.0e+0, 1000 was not 1e+3, and
a zero was not padded to the field width.
---
 src/Format.cxx | 147 +++++++++----------------------------------------
 1 file changed, 27 insertions(+), 120 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index d8a3170..1dc220a 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -284,107 +284,6 @@ namespace SoDa {
   }
   
   
-  int log1k(double v, double & v_norm, int sig_digs) {
-    int ret = 0;
-    v_norm = v; 
-    // round it first
-    double remul = 1.0; 
-    while(v_norm >= 10.0) {
-      v_norm = v_norm / 10.0;
-      remul = remul * 10.0;
-    }
-    while(v_norm < 1.0) {
-      v_norm = v_norm * 10.0;
-      remul = remul / 10.0;
-    }
-    // now create the round incr
-    double ri = 5;    
-    for(int s = 0; s < sig_digs; s++) {
-      ri = ri / 10.0;
-    }
-    // std::cerr << "ri = " << ri << " sig_digs " << sig_digs << "\n";
-    // now do the round-up add
-    v_norm += ri;
-    //std::cerr << "Now v_norm = " << v_norm << "\n";
-
-    // now restore v_norm to the original magnitude more or less
-    v_norm = v_norm * remul;
-
-    // ok, now take the log1k
-    if(v_norm < 1.0) {
-      while(v_norm < 1.0) {
-	ret -= 3; 
-	v_norm = v_norm * 1000.0; 
-      }
-    }
-    else {
-      while(v_norm > 1000.0) {
-	ret += 3; 
-	v_norm = v_norm / 1000.0; 
-      }
-    }
-    return ret; 
-  }
-
-  int getIntPartWidth(double v) {
-    int ret = 0; 
-    while(v > 1.0) {
-      v = v / 10.0; 
-      ret++; 
-    }
-    return ret; 
-  }
-  
-  void fractionate(double v, unsigned int significant_digits, 
-		   int & int_part, int & frac_part,
-		   int & int_wid, int & frac_wid) {
-    // v is in the range 1 to 1000 - epsilon. 
-    // How many digits did it take up?
-    int_wid = getIntPartWidth(v); 
-
-    // get fractional and int parts.
-    double dfrac_part, dint_part;
-    dfrac_part = modf(v, &dint_part); 
-    
-    //std::cerr << "dint_part " << dint_part << " dfrac_part " << dfrac_part 
-    //	      << "\n";
-    int_part = (int) dint_part;
-    //std::cerr << "int_part " << int_part << "\n";
-    
-    // now we need to zap off any integer parts
-    // if we don't have enough significant digits.
-    int modval = 1;
-    int iw = int_wid;
-    while(iw > significant_digits) {
-      modval = modval * 10; 
-      iw--;
-    }
-
-    //std::cerr << " int_part " << int_part << " vs modval " << modval;
-    int_part = int_part - (int_part % modval);      
-    //std::cerr << " gets us " << int_part << "\n";
-    
-    //std::cerr << "dfrac_part " << dfrac_part  << "\n";
-    // now trim the fractional part. 
-    frac_wid = 0; frac_part = 0;
-    int sd_left = significant_digits - iw;
-    //std::cerr << "sd_left = " << sd_left << "\n";
-    while(sd_left > 0) {
-      dfrac_part = dfrac_part * 10.0;
-      //std::cerr << "New dfrac_part " << dfrac_part << " floor(dfp) " << floor(dfrac_part) 
-      //		<< " frac_part " << frac_part << "\n";
-      frac_part = 10 * frac_part + floor(dfrac_part);
-      double junk;
-      dfrac_part = modf(dfrac_part, &junk);
-      //std::cerr << "new frac_part " << frac_part 
-      //		<< " dfrac_part " << dfrac_part
-      //	<< " trunc(df_p) " << trunc(dfrac_part)
-      //	<< "\n";
-      frac_wid++;
-      sd_left--;
-    }
-  }
-
   static std::string pad(const std::string & s, unsigned int w) {
     std::string ret = s;
     while(ret.size() < w) {
@@ -444,27 +343,35 @@ namespace SoDa {
 	//std::cerr << "Got zero " << v << "\n";
 	ss << "0" << separator << std::left 
 	   << std::setw(significant_digits - 1) << std::setfill('0') << 0 << "e0";
+	std::string zero = ss.str();
+	ss.str("");
+	ss << pad(zero, width); 
       }
       else {
-	// get the abs val
-	//std::cerr << "Got v = " << v << "\n";
-	double av = fabs(v);
-	// now get the log base 1000
-	// That's probably going to be our
-	// exponent. (Unless the fractional part
-	// rolls over.) We also normalize to
-	// a value in the range 1 to 1000
-	double av_norm; 
-	int exp_val = log1k(av, av_norm, significant_digits);
-	//std::cerr << "av_norm " << av_norm << " exp_val " << exp_val << "\n";
-	// now do the fraction and rounding
-	int frac_part, int_part, int_wid, frac_wid;
-	fractionate(av_norm, significant_digits,
-		    int_part, frac_part, 
-		    int_wid, frac_wid);
-	//std::cerr << "int_part " << int_part << " frac_part " << frac_part
-	//<< " int_wid " << int_wid << " frac_wid " << frac_wid
-	//	  << "\n";
+	// let the library do the rounding to the requested number 
+	// of digits: we get d.dddeNN, for any finite number. 
+	unsigned int digit_count = (significant_digits < 1) ? 1 : significant_digits; 
+	std::stringstream sci_ss;
+	sci_ss << std::scientific << std::setprecision(digit_count - 1) << fabs(v);
+	std::string sci = sci_ss.str();
+	auto e_pos = sci.find('e');
+	int exp_10 = std::stoi(sci.substr(e_pos + 1)); 
+	std::string digits;
+	for(auto c : sci.substr(0, e_pos)) {
+	  if(isdigit(c)) digits.push_back(c); 
+	}
+
+	// now move the radix point: the exponent must be a multiple of
+	// three, which leaves one, two, or three digits for the integer part
+	int int_wid = ((exp_10 % 3) + 3) % 3 + 1; 
+	int exp_val = exp_10 - (int_wid - 1);
+	while(digits.size() < int_wid) {
+	  digits.push_back('0'); 
+	}
+	std::string int_part = digits.substr(0, int_wid);
+	std::string frac_part = digits.substr(int_wid); 
+	int frac_wid = frac_part.size();
+	
 	// now print the sign
 	ss << ((v < 0) ? '-' : ' ');
 	// and the integer part
-- 
2.43.0


From fd11224f6624787a80ddb39e73f257c9c0aca85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 23/30] fix: use the radix separator in every floating point
 format

It was only used for a zero in engineering notation.
---
 src/Format.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 1dc220a..cc888a2 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -284,6 +284,13 @@ namespace SoDa {
   }
   
   
+  // put the chosen radix separator into a finite number
+  static std::string setRadix(std::string s, char separator) {
+    auto pos = s.find('.');
+    if(pos != std::string::npos) s[pos] = separator;
+    return s; 
+  }
+
   static std::string pad(const std::string & s, unsigned int w) {
     std::string ret = s;
     while(ret.size() < w) {
@@ -379,7 +386,7 @@ namespace SoDa {
 	// if we have no significant fraction digits,
 	// leave them off.
 	if(frac_wid > 0) {
-	  ss << '.' << std::setw(frac_wid) << std::right 
+	  ss << separator << std::setw(frac_wid) << std::right 
 	     << std::setfill('0') << frac_part;
 	}
 	// now the exponent
@@ -401,7 +408,7 @@ namespace SoDa {
       }
     }
 
-    insertField(ss.str());
+    insertField((fmt == 'e') ? ss.str() : setRadix(ss.str(), separator));
     return *this;     
   }
 
-- 
2.43.0


From 0b0dd40736abeded26708021d0e290e7489fc1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 24/30] fix: Format_ext must take what Format takes

addU narrowed its value to unsigned int, and addI had no fill parameter.
---
 include/Format.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Format.hxx b/include/Format.hxx
index d20e841..e2bd254 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -582,12 +582,12 @@ namespace SoDa {
      * a reference to the derived class.   So do all the other 
      * shadow methods here. 
      */
-    T & addI(int v, unsigned int width = 0, char sep = '\000') { 
-      Format::addI(v, width, sep);
+    T & addI(int v, unsigned int width = 0, char sep = '\000', char fill = '\000') { 
+      Format::addI(v, width, sep, fill);
       return *saved_ptr; 
     }
 
-    T & addU(unsigned int v, char fmt = 'd', unsigned int width = 0,
+    T & addU(unsigned long v, char fmt = 'd', unsigned int width = 0,
 	     char sep = '\000',
 	     unsigned int group_count = 4) {
       Format::addU(v, fmt, width, sep, group_count);
-- 
2.43.0


From 39c18803e288d88a53d7f9257731ca26d5160a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 25/30] fix: keep the sequence that is being loaded

it->second belongs to a temporary that was gone when the loop ran over it.
---
 src/PropertyTreeYAML.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 6edf678..efb091c 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -131,7 +131,9 @@ namespace SoDa {
 	// pass it along, as all prop tree nodes are lists or dictionaries
 	// or both
 	
-	for(auto n : it->second) {
+	// (it->second is part of a temporary: it must be kept for the loop.)
+	YAML::Node seq = it->second; 
+	for(auto n : seq) {
 	  fillRecurse(n, prop);
 	}
       }
-- 
2.43.0


From d99bc77ea1c577adb52d2b014b9958a327b60cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 26/30] fix: the props library needs the utils library

SoDaProps uses Format and split from sodautils but did not say so. A client
that names the libraries in the order of the example, or asks for SoDaProps
alone, did not link.
---
 SoDaPropsConfig.cmake.in | 5 ++++-
 src/CMakeLists.txt       | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/SoDaPropsConfig.cmake.in b/SoDaPropsConfig.cmake.in
index 321368e..670c774 100644
--- a/SoDaPropsConfig.cmake.in
+++ b/SoDaPropsConfig.cmake.in
@@ -16,8 +16,11 @@ set_and_check(SoDaProps_INCLUDE_DIR "@PACKAGE_CMAKE_INSTALL_INCLUDEDIR@")
 set_and_check(SoDaProps_LIBRARY_DIR "@PACKAGE_CMAKE_INSTALL_LIBDIR@")
 
 
+# sodaprops uses the formatter and the string splitter from sodautils
+find_dependency(SoDaUtils HINTS "${CMAKE_CURRENT_LIST_DIR}/../SoDaUtils")
+
 # Our library dependencies (contains definitions for IMPORTED targets)
-include(@PACKAGE_CONFIG_EXPORT_DIR@/sodaprops-targets.cmake)
+include(${CMAKE_CURRENT_LIST_DIR}/sodaprops-targets.cmake)
  
 set(SoDaProps_LIBRARIES "@EXPORT_TARGETS@")
 
diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 5433319..96cbf42 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -16,7 +16,7 @@ if(yaml-cpp_FOUND)
     PropertyTreeYAML.cxx)    
   add_library(sodaprops STATIC ${PROPS_SRCS})
   add_library(sodaprops::sodaprops ALIAS sodaprops)
-  target_link_libraries(sodaprops PRIVATE ${YAML_CPP_LIBRARIES})
+  target_link_libraries(sodaprops PRIVATE sodautils ${YAML_CPP_LIBRARIES})
   set_target_properties(sodaprops PROPERTIES VERSION ${SoDaUtils_VERSION})
 endif()	
 
-- 
2.43.0


From a13df84c2c5d13058f18e3cb812d7dcb3e6f3539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 27/30] fix: a placeholder number that doesn't fit must not
 wrap around to an existing field

---
 include/Format.hxx |  2 +-
 src/Format.cxx     | 23 ++++++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/Format.hxx b/include/Format.hxx
index e2bd254..f46cda9 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -526,7 +526,7 @@ namespace SoDa {
     public:
       enum SegType { LITERAL, FMT_VAL }; 
       FmtStringSeg(const std::string & str); 
-      FmtStringSeg(unsigned int idx);
+      FmtStringSeg(unsigned int idx, const std::string & num);
 
       SegType seg_type; 
       std::string val;
diff --git a/src/Format.cxx b/src/Format.cxx
index cc888a2..aeba74e 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -3,6 +3,7 @@
 #include <sstream>
 #include <iomanip>
 #include <cmath>
+#include <climits>
 #include <ctype.h>
 #include <regex>
 #include <algorithm>
@@ -44,9 +45,11 @@ namespace SoDa {
     val = str; 
   }
   
-  Format::FmtStringSeg::FmtStringSeg(unsigned int _idx) {
+  Format::FmtStringSeg::FmtStringSeg(unsigned int _idx, const std::string & num) {
     seg_type = FMT_VAL;
     idx = _idx;
+    // this is what we'll show until the field is filled in. 
+    val = "%" + num; 
   }
 
   Format::Format(const std::string & fmt_string) {
@@ -67,6 +70,7 @@ namespace SoDa {
 
     std::string cur_str;
     unsigned int cur_fldnum = 0; 
+    std::string cur_num; 
     for(auto c : fmt_string) {
       switch (s_state) {
       case NORM:
@@ -90,6 +94,7 @@ namespace SoDa {
 	  // and indicate that we're scanning for the rest of the field number
 	  s_state = ACC_FLDNUM; 
 	  cur_fldnum = (unsigned int) (c - '0');
+	  cur_num = c; 
 	}
 	else {
 	  // push a % and the current char onto the current string
@@ -102,11 +107,17 @@ namespace SoDa {
 	break; 
       case ACC_FLDNUM:
 	if(isdigit(c)) {
-	  cur_fldnum = cur_fldnum * 10 + ((unsigned int) (c - '0'));
+	  unsigned int digit = (unsigned int) (c - '0');
+	  // a number that is too big must not wrap around to a field
+	  // that does exist. 
+	  if(cur_fldnum > (UINT_MAX - digit) / 10) cur_fldnum = UINT_MAX;
+	  else cur_fldnum = cur_fldnum * 10 + digit;
+	  if(cur_num == "0") cur_num.clear();
+	  cur_num.push_back(c); 
 	}
 	else {
 	  // we scanned an fld, now push the fmt specifier
-	  format_string_segments.push_back(FmtStringSeg(cur_fldnum));
+	  format_string_segments.push_back(FmtStringSeg(cur_fldnum, cur_num));
 	  // set the state if we aren't looking at a new %
 	  if(c == '%') {
 	    s_state = SAW_PC;
@@ -136,7 +147,7 @@ namespace SoDa {
       }
       break;
     case ACC_FLDNUM:
-      format_string_segments.push_back(FmtStringSeg(cur_fldnum));
+      format_string_segments.push_back(FmtStringSeg(cur_fldnum, cur_num));
       break; 
     }
   }
@@ -483,9 +494,7 @@ namespace SoDa {
 	ret_string = ret_string + fld.val;
       }
       else if(fld.seg_type == FmtStringSeg::FMT_VAL) {
-	std::stringstream ss;
-	ss << '%' << fld.idx;
-	ret_string = ret_string + ss.str();
+	ret_string = ret_string + fld.val;
 	unfilled_count++; 
       }
     }
-- 
2.43.0


From bbd8b490e1fceec0392838de5a304a6626fff4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:58 +0000
Subject: [PATCH 28/30] fix: free the type names of a failed conversion

---
 include/MailBox.hxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 66f4868..79b21b6 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -6,6 +6,7 @@
 #include <mutex>
 #include <typeinfo>
 #include <cxxabi.h>
+#include <cstdlib>
 
 #include "Format.hxx"
 #include "Exception.hxx"
@@ -216,10 +217,13 @@ namespace SoDa {
       if(ret == nullptr) {
 	int st1, st2; 
 	// this demangling is pretty dicey... 
-	throw BadConversion(p->name, abi::__cxa_demangle(typeid(p).name(), 
-						nullptr, nullptr, &st1), 
-			    abi::__cxa_demangle(typeid(ret).name(), 
-						nullptr, nullptr, &st2));
+	// (the names that we get back are ours to free.)
+	std::unique_ptr<char, void (*)(void *)> 
+	  from(abi::__cxa_demangle(typeid(p).name(), 
+				   nullptr, nullptr, &st1), std::free), 
+	  to(abi::__cxa_demangle(typeid(ret).name(), 
+				 nullptr, nullptr, &st2), std::free);
+	throw BadConversion(p->name, from.get(), to.get()); 
       }
       return ret; 
     }
-- 
2.43.0


From 42b233ebe9692c48f62477f986f4ea5fc9a6a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:19 +0000
Subject: [PATCH 29/30] fix: subscribe deadlocks when there is no memory for
 the queue

---
 include/MailBox.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 79b21b6..8861ae5 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -313,15 +313,18 @@ namespace SoDa {
      * @returns a smart pointer to a subscriber object. 
      */
     Subscription subscribe() {
+      // if we fail below, this ends its subscription, which takes the
+      // lock: it must go away after the lock is released. 
+      Subscription ret; 
       std::lock_guard<std::mutex> lock(mtx);	      
       // what will the subscriber number be? 
-      Subscription ret(new SubscriptionCl(this,
-					  subscription_counter));
+      ret.reset(new SubscriptionCl(this,
+				   subscription_counter));
+      subscription_counter++; // nobody else gets this index, even if we fail
 
       // make a subscriber queue
-      message_queues[subscription_counter] = std::queue<std::shared_ptr<T>>();
+      message_queues[ret->subscriber_index] = std::queue<std::shared_ptr<T>>();
       
-      subscription_counter++;
       return ret;
     }
 
-- 
2.43.0


From 47b818130615175dbf8baf42f2a15f807cbdf73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 30/30] fix: the end of a subscription that has ended before
 ends the program when there is no memory

---
 include/MailBox.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 8861ae5..c627d22 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -3,6 +3,7 @@
 #include <map>
 #include <queue>
 #include <memory>
+#include <new>
 #include <mutex>
 #include <typeinfo>
 #include <cxxabi.h>
@@ -286,6 +287,9 @@ namespace SoDa {
 	catch(MissingSubscriber & e) {
 	  // the subscription was ended by a call to unsubscribe. 
 	}
+	catch(std::bad_alloc & e) {
+	  // the same, but there was no memory left to say so. 
+	}
       }
 
       int getIndex(MailBox<T> * mbox) const {
-- 
2.43.0

