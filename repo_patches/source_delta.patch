From 3c2dcdba2e8b5a8dd7a17669f61d401422cd502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 01/51] fix: no crash in the error reporting of functions
 called without a Lua function as caller

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 2275ac5..afc4fa9 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -55,7 +55,7 @@ extern "C" int luaopen_mewa( lua_State* ls);
 static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 {
 	lua_Debug ar;
-	lua_getstack( ls, 1, &ar);
+	if (!lua_getstack( ls, 1, &ar)) return mewa::Error::Location();
 	lua_getinfo( ls, "S", &ar);
 	return mewa::Error::Location( ar.short_src, ar.linedefined);
 }
-- 
2.43.0


From 280f8371caf1bb5cce3392fc7684c5ed73510fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 02/51] fix: typedb:def_type_as returns -1 for a duplicate
 definition as documented

---
 src/typedb.cpp | 2 +-
 src/typedb.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index a61be70..6274210 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -250,7 +250,7 @@ int TypeDatabase::defineTypeAs( const Scope& scope, int contextType, const std::
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 	if (type <= 0 || type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", type));
 	TypeDef typeDef( contextType, m_identMap->get( name));
-	return m_typeTable->set( scope, typeDef, type) ? type : 0;
+	return m_typeTable->set( scope, typeDef, type) ? type : -1;
 }
 
 void TypeDatabase::defineReduction( const Scope& scope, int toType, int fromType, int constructor, int tag, float weight)
diff --git a/src/typedb.hpp b/src/typedb.hpp
index 9564244..3ce0d05 100644
--- a/src/typedb.hpp
+++ b/src/typedb.hpp
@@ -283,7 +283,7 @@ public:
 	/// \param[in] contextType the context of this type.
 	/// \param[in] name name of the type
 	/// \param[in] type handle of the type defined
-	/// \return the type handle passed as argument in case of success, 0 in case of already defined (duplicate definition)
+	/// \return the type handle passed as argument in case of success, -1 in case of already defined (duplicate definition)
 	int defineTypeAs( const Scope& scope, int contextType, const std::string_view& name, int type);
 
 	/// \brief Get a type with exact signature defined in a specified scope (does not search other valid definitions in enclosing scopes)
-- 
2.43.0


From 48b283a71ff63975e734affe0fdf3914b0018bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 03/51] fix: a definition with the name of a type synonym must
 not extend the definitions of the original type

---
 src/typedb.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 6274210..d77a0ba 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -233,6 +233,10 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	int prev_typerec = m_typeTable->getOrSet( scope, typeDef, typerec);
 	if (prev_typerec/*already exists*/)
 	{
+		// A name defined as synonym of another type (see defineTypeAs) has no own list of definitions to extend:
+		const TypeRecord& prev = m_typerecMap[ prev_typerec-1];
+		if (prev.inv != typeDef || prev.scope != scope) return -1;
+
 		// Check if there is a conflict, and find the end of the single linked list (-> lastListIndex):
 		int lastListIndex = 0;
 		int tri = findTypeWithSignature( prev_typerec, parameter, lastListIndex);
-- 
2.43.0


From efa6e372cbf84329ee65d443859b9d7e79e3021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 04/51] fix: identifiers of 64K bytes and more were truncated
 and overflowed the buffer of the key

---
 src/identmap.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/identmap.hpp b/src/identmap.hpp
index 4d77000..bea5bf9 100644
--- a/src/identmap.hpp
+++ b/src/identmap.hpp
@@ -20,22 +20,24 @@
 #include <cstring>
 #include <cstdint>
 #include <string_view>
+#include <limits>
+#include <new>
 
 namespace mewa {
 
 struct IdentKey
 {
-	unsigned short size;
+	uint32_t size;
 	char buf[1];
 
 	static const IdentKey* create( std::pmr::memory_resource* memrsc, const std::string_view& src)
 	{
-		constexpr unsigned short maxsize = std::numeric_limits<unsigned short>::max()-4;
-		unsigned short strsize = src.size() > maxsize ? maxsize : src.size();
+		if (src.size() > (std::size_t)std::numeric_limits<int>::max()/2) throw std::bad_alloc();
+		uint32_t strsize = src.size();
 		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + strsize + 1;
+		uint32_t blksize = offs_buf + strsize + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
-		unsigned short restsize = blksize - strsize - offs_buf;
+		uint32_t restsize = blksize - strsize - offs_buf;
 		IdentKey* rt = (IdentKey*)memrsc->allocate( blksize, 4/*align*/);
 		rt->size = strsize;
 		std::memcpy( rt->buf, src.data(), strsize);
@@ -50,7 +52,7 @@ struct IdentKey
 	int alignedsize() const noexcept
 	{
 		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + size + 1;
+		uint32_t blksize = offs_buf + size + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
 		return blksize / 4;
 	}
-- 
2.43.0


From 07f7dbfbafb73f6cee7204b73ea8177363a4ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 05/51] fix: the iterator on the children of an introspection
 tree node returned the second child forever

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index afc4fa9..ddd92c0 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -1167,7 +1167,7 @@ struct LuaTreeMetaMethods
 			luaL_getmetatable( ls, UD::metatableName());
 			lua_setmetatable( ls, -2);
 
-			iter = (*ud->tree)[ ud->nodeidx].next();
+			iter = (*ud->tree)[ iter].next();
 			lua_pushinteger( ls, iter);
 			lua_replace( ls, lua_upvalueindex(2));
 		}
-- 
2.43.0


From d9b1571455b51c2a066194646958c4a9138b7695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 06/51] fix: type_tree lists all types defined in a scope, not
 only the first one of each name

---
 src/typedb.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index d77a0ba..2af602c 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -720,19 +720,28 @@ TypeDatabase::TypeDefinitionTree TypeDatabase::getTypeDefinitionTree() const
 {
 	struct TranslateItem
 	{
-		TranslateItem(){}
+		const std::vector<TypeRecord>& typerecMap;
+
+		explicit TranslateItem( const std::vector<TypeRecord>& typerecMap_) :typerecMap(typerecMap_){}
 		ScopeHierarchyTreeNode<TypeDefinitionList> operator()( const TypeTable::TreeNode& node)
 		{
 			ScopeHierarchyTreeNode<TypeDefinitionList> rt( node.scope, {});
 			for (auto const& elem : node.value)
 			{
 				rt.value.push_back( elem.second);
+				// Add the types defined with the same name but with different parameters (not for synonyms):
+				const TypeRecord& rec = typerecMap[ elem.second-1];
+				if (rec.inv != elem.first || rec.scope != node.scope) continue;
+				for (int tri = rec.next; tri; tri = typerecMap[ tri-1].next)
+				{
+					rt.value.push_back( tri);
+				}
 			}
 			return rt;
 		}
 	};
 	Tree<TypeTable::TreeNode> tree = m_typeTable->getTree();
-	TranslateItem translateItem;
+	TranslateItem translateItem( m_typerecMap);
 	return tree.translate< ScopeHierarchyTreeNode<TypeDefinitionList> >( translateItem);
 }
 
-- 
2.43.0


From f61ea7e3ea2f6a7605e133f19e52ad4ee3b6e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 07/51] fix: negative integer arguments were rounded up and
 integers out of range truncated

---
 src/lua_parameter.cpp | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 3d5b316..4ceb042 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -101,21 +101,32 @@ const char* mewa::lua::getArgumentAsCString( const char* functionName, lua_State
 	return lua_tostring( ls, li);
 }
 
-long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
+/// \brief Get a number as integer
+/// \return true if the element is a number representing an integer between minval and maxval
+static bool getNumberAsInteger( lua_State* ls, int li, double minval, double maxval, long& res)
 {
-	if (!mewa::lua::isArgumentType( functionName, ls, li, (1 << LUA_TNUMBER)))
-	{
-		mewa::lua::throwArgumentError( functionName, li, ec);
-	}
+	if (lua_type( ls, li) != LUA_TNUMBER) return false;
 	double val = lua_tonumber( ls, li);
-	if (val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
-	{
-		return (long)(val + std::numeric_limits<double>::epsilon()*4);
-	}
-	else
-	{
-		mewa::lua::throwArgumentError( functionName, li, ec);
-	}
+	double floorval = std::floor( val + std::numeric_limits<double>::epsilon()*4);
+	if (!(val - floorval < std::numeric_limits<double>::epsilon()*4)) return false;
+	if (floorval < minval || floorval > maxval) return false;
+	res = (long)floorval;
+	return true;
+}
+
+static bool getNumberAsInt( lua_State* ls, int li, int minval, int& res)
+{
+	long val;
+	if (!getNumberAsInteger( ls, li, minval, std::numeric_limits<int>::max(), val)) return false;
+	res = (int)val;
+	return true;
+}
+
+long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
+{
+	int rt;
+	if (!getNumberAsInt( ls, li, std::numeric_limits<int>::min(), rt)) mewa::lua::throwArgumentError( functionName, li, ec);
+	return rt;
 }
 
 long mewa::lua::getArgumentAsUnsignedInteger( const char* functionName, lua_State* ls, int li)
@@ -217,7 +228,11 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 
 mewa::TagMask mewa::lua::getArgumentAsTagMask( const char* functionName, lua_State* ls, int li)
 {
-	mewa::TagMask::BitSet bs = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
+	long bs;
+	if (!getNumberAsInteger( ls, li, 0, std::numeric_limits<mewa::TagMask::BitSet>::max(), bs))
+	{
+		mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedNonNegativeIntegerArgument);
+	}
 	return mewa::TagMask( bs);
 }
 
-- 
2.43.0


From 8740445883f8de3ad50d8ea7fe341129ed4aff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 08/51] fix: arguments of the type database checked completely
 (lists with holes, wrong element types, indices and numbers out of range)

---
 src/lua_parameter.cpp | 102 +++++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 47 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 4ceb042..dcf9d06 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -64,7 +64,7 @@ void mewa::lua::throwArgumentError( const char* functionName, int li, mewa::Erro
 bool mewa::lua::argumentIsArray( lua_State* ls, int li)
 {
 	bool rt = false;
-	if (lua_type( ls, 2) == LUA_TTABLE)
+	if (lua_type( ls, li) == LUA_TTABLE)
 	{
 		lua_pushvalue( ls, li);
 		lua_pushnil( ls);
@@ -73,10 +73,7 @@ bool mewa::lua::argumentIsArray( lua_State* ls, int li)
 			rt = lua_isinteger( ls, -2) && 1==lua_tointeger( ls, -2);
 			lua_pop( ls, 2);
 		}
-		else
-		{
-			lua_pop( ls, 1);
-		}
+		lua_pop( ls, 1);
 	}
 	return rt;
 }
@@ -169,17 +166,19 @@ void mewa::lua::checkArgumentAsTable( const char* functionName, lua_State* ls, i
 	}
 }
 
+static std::size_t getTableLength( lua_State* ls, int li)
+{
+#if LUA_VERSION_NUM <= 501
+	return lua_objlen( ls, li);
+#else
+	return lua_rawlen( ls, li);
+#endif
+}
+
 static int getTableIndex( lua_State* ls, int li)
 {
-	double kk = lua_tonumber( ls, li);
-	if (kk - std::floor( kk) < std::numeric_limits<double>::epsilon()*4)
-	{
-		return (int)(kk + std::numeric_limits<double>::epsilon()*4);
-	}
-	else
-	{
-		return 0;
-	}
+	int rt;
+	return getNumberAsInt( ls, li, 1, rt) ? rt : 0;
 }
 
 mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State* ls, int li)
@@ -195,13 +194,18 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 		if (lua_type( ls, -2) == LUA_TNUMBER && lua_type( ls, -1) == LUA_TNUMBER)
 		{
 			int kidx = getTableIndex( ls, -2);
+			int val = 0;
+			if (!getNumberAsInt( ls, -1, -std::numeric_limits<int>::max(), val))
+			{
+				mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentScopeStructure);
+			}
 			if (kidx == 1)
 			{
-				start = lua_tointeger( ls, -1);
+				start = val;
 			}
 			else if (kidx == 2)
 			{
-				end = lua_tointeger( ls, -1);
+				end = val;
 				if (end < 0)
 				{
 					end = std::numeric_limits<Scope::Step>::max() + end + 1;
@@ -250,6 +254,10 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 		int type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
 		return mewa::TypeDatabase::TypeConstructorPair( type, 0/*constructor*/);
 	}
+	else if (lua_type( ls, li) != LUA_TTABLE)
+	{
+		mewa::lua::throwArgumentError( functionName, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+	}
 	else
 	{
 		lua_pushvalue( ls, li);
@@ -264,7 +272,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				int kidx = getTableIndex( ls, -2);
 				if (kidx == 1)
 				{
-					type = lua_tointeger( ls, -1);
+					if (!getNumberAsInt( ls, -1, 0, type)) type = -1;
 				}
 				else if (kidx == 2)
 				{
@@ -282,7 +290,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				char const* str = lua_tolstring( ls, -2, &len);
 				if (len == 4 && 0==std::memcmp( str, "type", len))
 				{
-					type = lua_tointeger( ls, -1);
+					if (!getNumberAsInt( ls, -1, 0, type)) type = -1;
 				}
 				else if (len == 11 && 0==std::memcmp( str, "constructor", len))
 				{
@@ -311,6 +319,7 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 	std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair> rt( memrsc);
 	if (lua_isnil( ls, li)) return rt;
 	checkArgumentAsTable( functionName, ls, li);
+	std::size_t nofElements = getTableLength( ls, li);
 
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);								//STK: [PARAMTAB] NIL
@@ -322,18 +331,12 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 			if (!kidx) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
 
 			std::size_t index = kidx-1;
-			if (index == rt.size())
+			if (index >= nofElements) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+			if (index >= rt.size())
 			{
-				rt.emplace_back( getArgumentAsTypeConstructorPair( functionName, ls, -1));	//STK: [PARAMTAB] [KEY] [VAL]
+				rt.resize( index+1, mewa::TypeDatabase::TypeConstructorPair( -1, 0));
 			}
-			else
-			{
-				if (index > rt.size())
-				{
-					rt.resize( index+1, mewa::TypeDatabase::TypeConstructorPair( -1, -1));
-				}
-			}
-				rt[ index] = getArgumentAsTypeConstructorPair( functionName, ls, -1);		//STK: [PARAMTAB] [KEY] [VAL]
+			rt[ index] = getArgumentAsTypeConstructorPair( functionName, ls, -1);		//STK: [PARAMTAB] [KEY] [VAL]
 		}
 		else
 		{
@@ -342,6 +345,11 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 		lua_pop( ls, 1);											//STK: [PARAMTAB] [KEY]
 	}
 	lua_pop( ls, 1);												//STK:
+	for (auto const& elem : rt)
+	{
+		// ... the list has holes
+		if (elem.type < 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+	}
 	return rt;
 }
 
@@ -358,7 +366,7 @@ std::vector<std::string> mewa::lua::getArgumentAsStringList( const char* functio
 		if (lua_type( ls, -2) == LUA_TNUMBER && lua_type( ls, -1) == LUA_TSTRING)
 		{
 			int kidx = getTableIndex( ls, -2);
-			if (!kidx) throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentStringList);
+			if (!kidx || kidx > (int)getTableLength( ls, li)) throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentStringList);
 			while (kidx > (int)rt.size())
 			{
 				rt.push_back( std::string());
@@ -382,10 +390,8 @@ int mewa::lua::getArgumentAsType( const char* functionName, lua_State* ls, int l
 	{
 		lua_pushliteral( ls, "type");			// STK: [ARG] "type"
 		lua_rawget( ls, li > 0 ? li : (li-1));		// STK: [ARG] [TYPE]
-		if (lua_isnumber( ls, -1))
+		if (getNumberAsInt( ls, -1, 0, rt))
 		{
-			rt = lua_tointeger( ls, -1);
-			if (rt < 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentType);
 			lua_pop( ls, 1);
 		}
 		else
@@ -406,6 +412,7 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 	std::pmr::vector<int> rt( memrsc);
 	if (lua_isnil( ls, li)) return rt;
 	checkArgumentAsTable( functionName, ls, li);
+	std::size_t nofElements = getTableLength( ls, li);
 
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);		//STK: [PARAMTAB] NIL
@@ -426,11 +433,7 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 				{
 					lua_pushliteral( ls, "type");					// STK: [KEY] [VAL] "type"
 					lua_rawget( ls, -2);						// STK: [KEY] [VAL] [TYPE]
-					if (lua_isnumber( ls, -1))
-					{
-						type = lua_tointeger( ls, -1);
-					}
-					else
+					if (!getNumberAsInt( ls, -1, 0, type))
 					{
 						mewa::lua::throwArgumentError(
 								functionName, li, allowTypeConstructorPairs
@@ -452,18 +455,15 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 				type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, -1);
 			}
 			std::size_t index = kidx-1;
-			if (index == rt.size())
-			{
-				rt.push_back( type);
-			}
-			else
+			if (index >= nofElements) mewa::lua::throwArgumentError(
+					functionName, li, allowTypeConstructorPairs
+								? mewa::Error::ExpectedArgumentTypeList
+								: mewa::Error::ExpectedArgumentTypeOrTypeConstructorPairList);
+			if (index >= rt.size())
 			{
-				if (index > rt.size())
-				{
-					rt.resize( index+1, 0);
-				}
-				rt[ index] = type;
+				rt.resize( index+1, -1);
 			}
+			rt[ index] = type;
 		}
 		else
 		{
@@ -475,6 +475,14 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 		lua_pop( ls, 1);	//STK: [PARAMTAB] [KEY]
 	}
 	lua_pop( ls, 1);		//STK:
+	for (int type : rt)
+	{
+		// ... the list has holes
+		if (type < 0) mewa::lua::throwArgumentError(
+				functionName, li, allowTypeConstructorPairs
+							? mewa::Error::ExpectedArgumentTypeList
+							: mewa::Error::ExpectedArgumentTypeOrTypeConstructorPairList);
+	}
 	return rt;
 }
 
-- 
2.43.0


From 24e19f537717deecb30e410a7c2ded5f13ce1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 09/51] fix: reductions to the same type with different tags in
 one scope were hidden by the one defined first

---
 src/scope.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 611430a..0b09c36 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -895,21 +895,22 @@ public:
 	{
 		int local_membuffer[ 2048];
 		mewa::monotonic_buffer_resource local_memrsc( local_membuffer, sizeof local_membuffer);
-		std::pmr::map<RELNODETYPE,int> candidatemap( &local_memrsc);
+		std::pmr::map<RELNODETYPE,int> candidatemap( &local_memrsc);	//< destination -> list start of the innermost scope with a selected relation
 
 		std::pmr::vector<ResultElement> rt( res_memrsc);
 
 		auto range = m_map.match_range( step, key);
 		for (auto ri = range.first; ri != range.second; ++ri)
 		{
-			int li = *ri;
+			int liststart = *ri;
+			int li = liststart;
 			while (li >= 0)
 			{
 				const ListElement& le = m_list[ li];
 				if (selectTags.matches( le.tagval))
 				{
-					auto ins = candidatemap.insert( {le.related, rt.size()});
-					if (ins.second /*insert took place*/)
+					auto ins = candidatemap.insert( {le.related, liststart});
+					if (ins.second /*insert took place*/ || ins.first->second == liststart /*same scope, other tag*/)
 					{
 						rt.push_back( ResultElement( le.related/*right*/, le.value, le.weight, le.tagval));
 					}
-- 
2.43.0


From 5e00445c9927134524a3c74fb4a4e92b5cc3aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 10/51] fix: NaN refused as weight of a reduction

---
 src/scope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 0b09c36..90422fd 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -861,7 +861,7 @@ public:
  	void set( const Scope scope, const RELNODETYPE& left, const RELNODETYPE& right, const VALTYPE& value, int tag, float weight)
 	{
 		if (tag > TagMask::MaxTag || tag < TagMask::MinTag) throw Error( Error::BadRelationTag, string_format("%d",tag));
-		if (weight < 0.0) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
+		if (!(weight >= 0.0)) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
 
 		std::uint8_t tagval = TagMask::tagValFromTag( tag);
 		int newlistindex = m_list.size();
-- 
2.43.0


From 3084dbb5b87a09306097087d90c6505cad8f0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 11/51] fix: typedb:scope refused because of its step argument
 must not change the current scope

---
 src/lualib_mewa.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index ddd92c0..69462e1 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -555,8 +555,9 @@ static int mewa_typedb_scope( lua_State* ls)
 		mewa::Scope::Step rt_step = td->curStep;
 		if (nargs >= 2)
 		{
-			td->curScope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
-			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (td->curScope.end()-1);
+			mewa::Scope scope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
+			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (scope.end()-1);
+			td->curScope = scope;
 		}
 		mewa::lua::pushScope( ls, functionName, rt_scope);
 		lua_pushinteger( ls, rt_step);
-- 
2.43.0


From fdc874a492f397fdbff4c0ed33ed5ca11b8b725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 12/51] fix: empty scope refused in typedb:scope, a definition
 in an empty scope ran over the end of the scope map

---
 src/lua_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index dcf9d06..b5baa6d 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -222,7 +222,7 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 		}
 		lua_pop( ls, 1);
 	}
-	if (start < 0 || end < 0 || start > end)
+	if (start < 0 || end < 0 || start >= end)
 	{
 		mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentScopeStructure);
 	}
-- 
2.43.0


From ef0cba4f5b3eb9220c62f726e35bf5f9c3292646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 13/51] fix: out of bounds read in mewa.stacktrace for the main
 chunk of a script

---
 src/lua_parameter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index b5baa6d..0225f6a 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -706,11 +706,15 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			auto ins = locationMap.insert( {ar.short_src, mewa::readFileLines( ar.short_src)} );
 			fi = ins.first;
 		}
-		if ((int)fi->second.size() >= ar.linedefined)
+		if (ar.linedefined < 1)
+		{
+			// ... main chunk, has no function header
+		}
+		else if ((int)fi->second.size() >= ar.linedefined)
 		{
 			char const* ln = fi->second[ ar.linedefined-1].c_str();
 			for (; *ln && (unsigned char)*ln <= 32; ++ln){}
-			if (0==std::memcmp( ln, "function ", 8)) ln += 8;
+			if (0==std::strncmp( ln, "function ", 8)) ln += 8;
 			for (; *ln && (unsigned char)*ln <= 32; ++ln){}
 			char const* le = std::strchr( ln, '(');
 			if (!le) le = std::strchr( ln, '\0');
-- 
2.43.0


From 9a53fd3187778333c0de211755544bbd9d5e3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 14/51] fix: get_reduction reported an ambiguity although there
 is a cheaper reduction defined later

---
 src/typedb.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 2af602c..7e2aae0 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -480,6 +480,7 @@ TypeDatabase::GetReductionResult TypeDatabase::getReduction( const Scope::Step s
 	auto redulist = m_reduTable->get( step, fromType, selectTags, &redu_memrsc);
 
 	TypeDatabase::GetReductionResult rt;
+	bool ambiguous = false;
 	for (auto const& redu : redulist)
 	{
 		if (toType == redu.right())
@@ -490,16 +491,23 @@ TypeDatabase::GetReductionResult TypeDatabase::getReduction( const Scope::Step s
 				if (rt.weight <= redu.weight() + std::numeric_limits<float>::epsilon())
 				{
 					//... weights are equal
-					ResultBuffer resbuf_err;
-					auto toTypeStr = typeToString( toType, " ", resbuf_err);
-					auto fromTypeStr = typeToString( fromType, " ", resbuf_err);
-					throw Error( Error::AmbiguousReductionDefinitions, string_format( "%s <- %s", toTypeStr.c_str(), fromTypeStr.c_str()));
+					ambiguous = true;
+					continue;
 				}
 			}
 			rt.constructor = redu.value()/*constructor*/;
 			rt.weight = redu.weight()/*constructor*/;
+			ambiguous = false;
 		}
 	}
+	if (ambiguous)
+	{
+		ResultBuffer resbuf_err1;
+		ResultBuffer resbuf_err2;
+		auto toTypeStr = typeToString( toType, " ", resbuf_err1);
+		auto fromTypeStr = typeToString( fromType, " ", resbuf_err2);
+		throw Error( Error::AmbiguousReductionDefinitions, string_format( "%s <- %s", toTypeStr.c_str(), fromTypeStr.c_str()));
+	}
 	return rt;
 }
 
-- 
2.43.0


From 0a087ef9bcfa07af83db0ae77cb6e00b6da9ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 15/51] fix: refused def_type left a type record behind and
 accepted unknown types as parameters

---
 src/typedb.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 7e2aae0..342ba9a 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -213,22 +213,13 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	if (constructor < 0) throw Error( Error::InvalidHandle, string_format( "%d", constructor));
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 
-	m_typerecMap.reserve( m_typerecMap.size()+1);
-
-	int parameterlen = parameter.size();
-	int parameteridx;
-	if (parameter.empty())
-	{
-		parameteridx = 0;
-	}
-	else
+	for (auto const& pt : parameter)
 	{
-		parameteridx = (int)m_parameterMap.size()+1;
-		m_parameterMap.insert( m_parameterMap.end(), parameter.begin(), parameter.end());
+		if (pt.type < 0 || pt.type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", pt.type));
 	}
 	int typerec = m_typerecMap.size()+1;
+	int lastListIndex = 0;
 	TypeDef typeDef( contextType, m_identMap->get( name));
-	m_typerecMap.push_back( TypeRecord( constructor, scope, parameteridx, parameterlen, typeDef));
 
 	int prev_typerec = m_typeTable->getOrSet( scope, typeDef, typerec);
 	if (prev_typerec/*already exists*/)
@@ -238,17 +229,27 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 		if (prev.inv != typeDef || prev.scope != scope) return -1;
 
 		// Check if there is a conflict, and find the end of the single linked list (-> lastListIndex):
-		int lastListIndex = 0;
 		int tri = findTypeWithSignature( prev_typerec, parameter, lastListIndex);
 		if (tri) return -1;
 
-		// ... the definition is new and we got the tail of the list in 'lastListIndex', we add the new created record:
 		if (!lastListIndex) throw Error( Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
+	}
+	// The definition is accepted, only now the records for it are created:
+	int parameterlen = parameter.size();
+	int parameteridx = 0;
+	if (!parameter.empty())
+	{
+		parameteridx = (int)m_parameterMap.size()+1;
+		m_parameterMap.insert( m_parameterMap.end(), parameter.begin(), parameter.end());
+	}
+	m_typerecMap.push_back( TypeRecord( constructor, scope, parameteridx, parameterlen, typeDef));
+	if (lastListIndex)
+	{
+		// ... we got the tail of the list of overloads in 'lastListIndex', we add the new created record:
 		m_typerecMap[ lastListIndex-1].next = typerec;
 	}
 	return typerec;
 }
-
 int TypeDatabase::defineTypeAs( const Scope& scope, int contextType, const std::string_view& name, int type)
 {
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
-- 
2.43.0


From eb519b39547099a339e33ebfcd1c330e2bbec1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 16/51] fix: crash when loading a malformed automaton table,
 elements were not checked to be tables

---
 src/lua_load_automaton.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index ac1dc57..7358bf2 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -40,6 +40,7 @@ static std::map<KEY,VAL> parsePackedTable( lua_State *ls, int li, const char* ta
 	std::map<KEY,VAL> rt;
 	int rowcnt = 0;
 
+	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s'", tableName));
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);
 
@@ -71,6 +72,7 @@ static std::vector<std::string> parseStringArray( lua_State *ls, int li, const s
 	std::vector<std::string> rt;
 	int rowcnt = 0;
 
+	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s'", tableName.c_str()));
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);
 
@@ -99,6 +101,7 @@ static std::vector<int> parseIntegerArray( lua_State *ls, int li, const std::str
 	std::vector<int> rt;
 	int rowcnt = 0;
 
+	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s'", tableName.c_str()));
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);
 
@@ -220,7 +223,7 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 								mewa::string_format( "table '%s/%s', row %d col %d", tableName, keystr, rowcnt, colcnt));
 				}
 				auto arg = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
-				if (arg.size() > 3 || arg.empty())
+				if (arg.size() > 3 || arg.size() < 2)
 				{
 					throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 								mewa::string_format( "table '%s/%s', row %d", tableName, keystr, rowcnt));
-- 
2.43.0


From b6be7ab1da5177236ba41bfb5f4f9f13d83088be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 17/51] fix: stack overflow when serializing a table with
 circular references without depth limit

---
 src/lua_serialize.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index bf9e705..3ab3106 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -10,6 +10,7 @@
 /// \brief Serialization of lua data structures
 /// \file "lua_serialize.hpp"
 #include "lua_serialize.hpp"
+#include "error.hpp"
 #include <vector>
 #include <iostream>
 #include <sstream>
@@ -29,7 +30,9 @@ extern "C" {
 
 using namespace mewa;
 
-static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth);
+static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level);
+
+enum {MaxTableNesting=1000};
 
 static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
 {
@@ -123,8 +126,10 @@ struct LuaTableKey
 	}
 };
 
-static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
+static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level)
 {
+	// ... a table nested too deep is most likely a table with circular references
+	if (level >= MaxTableNesting || !lua_checkstack( ls, 6)) throw Error( Error::SerializationError, "table nested too deep");
 	std::vector<LuaTableKey> keyvec;
 	keyvec.reserve( 1024);
 	bool hasNameKeys = false;
@@ -180,7 +185,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			out << indent;
 			key.serialize( out);
 			out << " = ";
-			serializeLuaValue( out, ls, -1, indent, depth);
+			serializeLuaValue( out, ls, -1, indent, depth, level+1);
 			lua_pop( ls, 1);					// STK: [TABLE] 
 		}
 	}
@@ -194,7 +199,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 
 			if (kidx++) out << ",";
 			out << indent;
-			serializeLuaValue( out, ls, -1, indent, depth);
+			serializeLuaValue( out, ls, -1, indent, depth, level+1);
 			lua_pop( ls, 1);					// STK: [TABLE] 
 		}
 	}
@@ -248,7 +253,7 @@ static std::string encodeCString( const char* str)
 	return rt;
 }
 
-static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
+static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level)
 {
 	int tp = lua_type( ls, li);
 	switch (tp)
@@ -274,12 +279,12 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 				}
 				else
 				{
-					serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth-1);
+					serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth-1, level);
 				}
 			}
 			else
 			{
-				serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth);
+				serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth, level);
 			}
 			break;
 		case LUA_TFUNCTION:
@@ -295,7 +300,7 @@ std::string mewa::luaToString( lua_State* ls, int li, bool use_indent, int depth
 {
 	std::string rt;
 	std::ostringstream out;
-	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth);
+	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth, 0/*level*/);
 	rt.append( out.str());
 	return rt;
 }
-- 
2.43.0


From f1c4dc08b62aed2062806c08edcef59950a0ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 18/51] fix: llvm_float_tohex returned values not representable
 as 32 bit float for numbers out of the range of normalized floats

---
 src/lualib_mewa.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 69462e1..0c918b4 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -278,15 +278,11 @@ static int mewa_llvm_float_tohex( lua_State* ls)
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 1/*maxNofArgs*/);
-		double num = mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 1);
+		// Rounded to a 32 bit float, LLVM refuses a value that is not representable as float:
+		double num = (float)mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 1);
 		char buf[ 64];
 		int64_t encnum;
 		std::memmove( &encnum, &num, sizeof( encnum));
-		encnum >>= 28;
-		bool doinc = (encnum & 1);
-		if (doinc) ++encnum;
-		encnum = (encnum >> 1);
-		encnum = (encnum << 29);
 		const char* fmt64 = sizeof(long) == 8 ? "%lx" : "%llx";
 		std::snprintf( buf, sizeof(buf), fmt64, encnum);
 		for (char* bi = buf; *bi; ++bi) if (*bi >= 'a' && *bi <= 'z') {*bi -= 32;}
-- 
2.43.0


From 485b8db7ff6ec801e6574cc945dc49947610b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 19/51] fix: mewa.tostring lost quotes, array holes, digits and
 NUL bytes and wrote keys that are no identifiers unquoted

---
 src/lua_serialize.cpp | 84 ++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index 3ab3106..413918f 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -18,6 +18,9 @@
 #include <limits>
 #include <cmath>
 #include <algorithm>
+#include <string_view>
+#include <cstdio>
+#include <cstdlib>
 
 extern "C" {
 #include <lua.h>
@@ -34,27 +37,30 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 
 enum {MaxTableNesting=1000};
 
-static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
+static void serializeNumber( std::ostream& out, double num)
 {
-	double num;
-	num = lua_tonumber( ls, li);
-	if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
+	char buf[ 64];
+	if (num == std::floor( num) && num > -1e15 && num < 1e15)
 	{
-		out << lua_tointeger( ls, li);
+		std::snprintf( buf, sizeof(buf), "%.0f", num + 0.0/*no -0*/);
 	}
 	else
 	{
-		out << num;
+		std::snprintf( buf, sizeof(buf), "%.14g", num);
+		if (std::strtod( buf, nullptr) != num) std::snprintf( buf, sizeof(buf), "%.17g", num);
 	}
+	out << buf;
 }
 
+static std::string encodeCString( const std::string_view& str);
+
 struct LuaTableKey
 {
 	enum Type {NumberType,StringType};
 	Type type;
-	std::variant<double,const char*> value;
+	std::variant<double,std::string_view> value;
 
-	LuaTableKey( const char* value_)
+	LuaTableKey( const std::string_view& value_)
 		:type(StringType),value(value_){}
 	LuaTableKey( const double value_)
 		:type(NumberType),value(value_){}
@@ -68,7 +74,7 @@ struct LuaTableKey
 			switch (type)
 			{
 				case NumberType: return std::get<double>(value) < std::get<double>(o.value);
-				case StringType: return std::strcmp( std::get<const char*>(value), std::get<const char*>(o.value)) < 0;
+				case StringType: return std::get<std::string_view>(value) < std::get<std::string_view>(o.value);
 			}
 		}
 		return (int)type < (int)o.type;
@@ -82,7 +88,7 @@ struct LuaTableKey
 				lua_pushnumber( ls, std::get<double>(value));
 				break;
 			case StringType:
-				lua_pushstring( ls, std::get<const char*>(value));
+				lua_pushlstring( ls, std::get<std::string_view>(value).data(), std::get<std::string_view>(value).size());
 				break;
 		}
 	}
@@ -92,26 +98,18 @@ struct LuaTableKey
 		switch (type)
 		{
 			case NumberType:
-			{
-				double num = std::get<double>(value);
-				if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
-				{
-					out << "[" << (int)(num + std::numeric_limits<double>::epsilon()*4) << "]";
-				}
-				else
-				{
-					out << "[" << std::get<double>(value) << "]";
-				}
+				out << "[";
+				serializeNumber( out, std::get<double>(value));
+				out << "]";
 				break;
-			}
 			case StringType:
 				if (isIdentifier())
 				{
-					out << std::get<const char*>(value);
+					out << std::get<std::string_view>(value);
 				}
 				else
 				{
-					out << "[\"" << std::get<const char*>(value) << "\"]";
+					out << "[\"" << encodeCString( std::get<std::string_view>(value)) << "\"]";
 				}
 				break;
 		}
@@ -119,10 +117,13 @@ struct LuaTableKey
 
 	bool isIdentifier() const noexcept
 	{
-		char const* si = std::get<const char*>(value);
-		if (*si >= '0' && *si <= '9') return false;
-		for (; *si && (((*si|32) >= 'a' && (*si|32) <= 'z') || (*si >= '0' && *si <= '9') || *si == '_'); ++si){}
-		return !*si;
+		static const char* reserved[] = {"and","break","do","else","elseif","end","false","for","function","goto","if","in","local",
+						 "nil","not","or","repeat","return","then","true","until","while"};
+		std::string_view str = std::get<std::string_view>(value);
+		if (str.empty() || (str[0] >= '0' && str[0] <= '9')) return false;
+		for (char ch : str) if (!(((ch|32) >= 'a' && (ch|32) <= 'z') || (ch >= '0' && ch <= '9') || ch == '_')) return false;
+		for (char const* rv : reserved) if (str == rv) return false;
+		return true;
 	}
 };
 
@@ -142,15 +143,16 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	{
 		if (lua_type( ls, -2) == LUA_TSTRING)
 		{
-			const char* sptr = lua_tostring( ls, -2);
-			keyvec.push_back( sptr);
+			std::size_t slen;
+			const char* sptr = lua_tolstring( ls, -2, &slen);
+			keyvec.push_back( std::string_view( sptr, slen));
 			hasNameKeys = true;
 		}
 		else if (lua_type( ls, -2) == LUA_TNUMBER)
 		{
 			double kk = lua_tonumber( ls, -2);
 			++rowcnt;
-			if (!hasNameKeys && (kk - std::floor( kk) > std::numeric_limits<double>::epsilon()*4))
+			if (!hasNameKeys && kk != std::floor( kk))
 			{
 				hasNameKeys = true;
 			}
@@ -165,9 +167,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 		{
 			hasNameKeys = true;
 		}
-		else if (rowcnt
-			&& (int)(std::get<double>(keyvec[0].value) + std::numeric_limits<double>::epsilon()*4) != 1
-			&& (int)(std::get<double>(keyvec.back().value) + std::numeric_limits<double>::epsilon()*4) != rowcnt)
+		else if (rowcnt && (std::get<double>(keyvec[0].value) != 1 || std::get<double>(keyvec.back().value) != rowcnt))
 		{
 			hasNameKeys = true;
 		}
@@ -207,14 +207,12 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	lua_pop( ls, 1); // ... pop table and keyvec
 }
 
-static std::string encodeCString( const char* str)
+static std::string encodeCString( const std::string_view& str)
 {
 	const char* HEX = "0123456789ABCDEF";
 	std::string rt;
-	char const* si = str;
-	for (; *si; ++si)
+	for (unsigned char ch : str)
 	{
-		unsigned char ch = (unsigned char)*si;
 		if (ch < 32)
 		{
 			if (ch == '\t')
@@ -240,9 +238,9 @@ static std::string encodeCString( const char* str)
 				rt.append( buf);
 			}
 		}
-		else if (ch == '\\')
+		else if (ch == '\\' || ch == '"')
 		{
-			rt.push_back( ch);
+			rt.push_back( '\\');
 			rt.push_back( ch);
 		}
 		else
@@ -262,14 +260,18 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 			out << "nil";
 			break;
 		case LUA_TNUMBER:
-			serializeLuaNumber( out, ls, li);
+			serializeNumber( out, lua_tonumber( ls, li));
 			break;
 		case LUA_TBOOLEAN:
 			out << (lua_toboolean( ls, li) ? "true" : "false");
 			break;
 		case LUA_TSTRING:
-			out << '"' << encodeCString( lua_tostring( ls, li)) << '"';
+		{
+			std::size_t len;
+			const char* str = lua_tolstring( ls, li, &len);
+			out << '"' << encodeCString( std::string_view( str, len)) << '"';
 			break;
+		}
 		case LUA_TTABLE:
 			if (depth)
 			{
-- 
2.43.0


From 5aedbed48c087ba599074f2c1ac3949089ce5de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 20/51] fix: mewa.stacktrace failed for scripts with a long
 path and for code not loaded from a file

---
 src/lua_parameter.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 0225f6a..2c6eb77 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -698,13 +698,20 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			lua_rawset( ls, -3);						// STK: [STKTR] [ELEM]
 		}
 		lua_pushliteral( ls, "file");						// STK: [STKTR] [ELEM] "file"
-		lua_pushstring( ls, ar.short_src);					// STK: [STKTR] [ELEM] "file" [FILENAME]
+		// ... the path in 'short_src' is abbreviated if it is long
+		const char* filename = ar.source[0] == '@' ? ar.source + 1 : ar.short_src;
+		lua_pushstring( ls, filename);						// STK: [STKTR] [ELEM] "file" [FILENAME]
 		lua_rawset( ls, -3);							// STK: [STKTR] [ELEM]
-		auto fi = locationMap.find( ar.short_src);
+		auto fi = locationMap.find( filename);
 		if (fi == locationMap.end())
 		{
-			auto ins = locationMap.insert( {ar.short_src, mewa::readFileLines( ar.short_src)} );
-			fi = ins.first;
+			std::vector<std::string> lines;
+			try
+			{
+				if (ar.source[0] == '@') lines = mewa::readFileLines( filename);
+			}
+			catch (const mewa::Error&) {} // ... the source is not available
+			fi = locationMap.insert( {filename, lines} ).first;
 		}
 		if (ar.linedefined < 1)
 		{
@@ -728,10 +735,6 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			lua_pushlstring( ls, ln, le-ln);				// STK: [STKTR] [ELEM] "function" [FUNCNAME]
 			lua_rawset( ls, -3);						// STK: [STKTR] [ELEM]
 		}
-		else
-		{
-			throw mewa::Error( mewa::Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
-		}
 		if (do_ignore)
 		{
 			lua_pop( ls, 1);
-- 
2.43.0


From ae30c8c5aa6a715359cce5402a1d4c7af2f5c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 21/51] fix: first character set of token patterns was wrong
 for optional elements, alternatives, negated sets and escapes, tokens were
 not recognized

---
 src/lexer.cpp | 278 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 165 insertions(+), 113 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index dbb09e7..36c7f06 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -13,12 +13,13 @@
 #include "error.hpp"
 #include "strings.hpp"
 #include "utf8.hpp"
+#include <cctype>
 
 using namespace mewa;
 
 #define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^"
 
-static std::string_view parseChar( char const*& si)
+static std::string_view parseChar( char const* si)
 {
 	if ((unsigned char)*si >= 128)
 	{
@@ -32,171 +33,222 @@ static std::string_view parseChar( char const*& si)
 	}
 }
 
-static char parseFirstChar( char const*& si, bool allowNonAscii)
+static std::string inverseCharset( const std::string& charset)
+{
+	std::string rt;
+	std::bitset<256> cset;
+	for (char ch : charset) cset.set( (unsigned char)ch);
+	for (int ii=33; ii<256; ++ii) if (!cset.test(ii)) {rt.push_back(ii);}
+	return rt;
+}
+
+/// \brief Calculates the set of characters a match of a regular expression (ECMAScript, already validated by the regular expression compiler) can start with
+/// \note The set calculated may contain characters not starting any match, but it contains all that do
+class ActivationParser
 {
-	if ((unsigned char)*si < 32U)
+public:
+	explicit ActivationParser( const std::string& source) :m_itr(source.c_str()){}
+
+	std::string parse()
 	{
-		throw Error( Error::IllegalFirstCharacterInLexer, parseChar(si));
+		std::string rt;
+		(void)parseDisjunction( &rt);
+		if (*m_itr) throw Error( Error::SyntaxErrorInLexer);
+		return rt;
 	}
-	else if (*si == '\\')
+
+private:
+	// All parse methods add the first characters to res, if res is defined, and return true if the subexpression matches the empty string.
+
+	bool parseDisjunction( std::string* res)
 	{
-		++si;
-		if (0!=std::strchr( REGEX_ESCAPE_CHARS, *si))
+		bool nullable = parseAlternative( res);
+		while (*m_itr == '|')
 		{
-			return *si++;
+			++m_itr;
+			nullable |= parseAlternative( res);
 		}
-		else
+		return nullable;
+	}
+
+	bool parseAlternative( std::string* res)
+	{
+		bool nullable = true;
+		while (*m_itr && *m_itr != '|' && *m_itr != ')')
 		{
-			throw Error( Error::IllegalFirstCharacterInLexer, std::string( "\\") + std::string( parseChar( si)));
+			bool atomNullable = parseAtom( nullable ? res : nullptr);
+			bool optional = parseQuantifier();
+			if (!atomNullable && !optional) nullable = false;
 		}
+		return nullable;
 	}
-	else
+
+	bool parseAtom( std::string* res)
 	{
-		char rt = *si;
-		int len = utf8charlen( *si);
-		if (!allowNonAscii && len > 1)
+		switch (*m_itr)
 		{
-			throw Error( Error::IllegalFirstCharacterInLexer, parseChar(si));
+			case '^':
+			case '$': ++m_itr; return true;
+			case '.': ++m_itr; addAll( res); return false;
+			case '(': ++m_itr; return parseGroup( res);
+			case '[': ++m_itr; parseBrackets( res); return false;
+			case '\\': ++m_itr; return parseEscape( res);
+			default:
+				if ((unsigned char)*m_itr < 32U && res) throw Error( Error::IllegalFirstCharacterInLexer, parseChar( m_itr));
+				if (res) res->push_back( *m_itr);
+				m_itr += parseChar( m_itr).size();
+				return false;
 		}
-		si += len;
-		return rt;
 	}
-}
 
-static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
-{
-	bool empty = true;
-	while (*si && *si != eb)
+	bool parseGroup( std::string* res)
 	{
-		if (*si == '-' && !empty)
+		bool nullable = false;
+		if (m_itr[0] == '?' && (m_itr[1] == '=' || m_itr[1] == '!'))
 		{
-			++si;
-			char from = res[ res.size()-1];
-			if (!*si || *si == eb)
-			{
-				res.push_back( from);
-				break;
-			}
-			else
-			{
-				char to = parseFirstChar( si, false/*!allowNonAscii*/);
-				if (to < from) std::swap( to, from);
-				for (++from; from <= to; ++from)
-				{
-					res.push_back( from);
-				}
-			}
+			m_itr += 2;
+			(void)parseDisjunction( nullptr);
+			nullable = true;
 		}
 		else
 		{
-			res.push_back( parseFirstChar( si, false/*!allowNonAscii*/));
+			if (m_itr[0] == '?' && m_itr[1] == ':') m_itr += 2;
+			nullable = parseDisjunction( res);
 		}
-		empty = false;
+		if (*m_itr != ')') throw Error( Error::SyntaxErrorInLexer);
+		++m_itr;
+		return nullable;
 	}
-	if (!*si) throw Error( Error::SyntaxErrorInLexer);
-	++si;
-	return !empty;
-}
-
-static bool skipBrackets( char const*& si, char eb)
-{
-	char sb = *si++;
-	int cnt = 1;
 
-	bool empty = true;
-	for (; *si && cnt > 0; ++si)
+	bool parseEscape( std::string* res)
 	{
-		if (*si == eb)
+		char ch = *m_itr;
+		if (!ch) throw Error( Error::SyntaxErrorInLexer);
+		++m_itr;
+		if (ch == 'b' || ch == 'B') return true;
+		if (ch >= '1' && ch <= '9')
 		{
-			--cnt;
+			addAll( res);
+			return true; //... back reference, may be empty
 		}
-		else if (*si == sb)
+		if (std::ispunct( (unsigned char)ch))
 		{
-			++cnt;
+			if (res) res->push_back( ch);
 		}
 		else
 		{
-			empty = false;
+			addAll( res);
 		}
+		return false;
 	}
-	if (!*si && cnt != 0) throw Error( Error::SyntaxErrorInLexer);
-	return !empty;
-}
 
-static bool skipMultiplicator( char const*& si)
-{
-	if (*si)
+	void parseBrackets( std::string* res)
 	{
-		if (*si == '*')
+		std::string charset;
+		bool all = false;
+		bool inverse = (*m_itr == '^');
+		if (inverse) ++m_itr;
+		while (*m_itr && *m_itr != ']')
 		{
-			++si;
-			return false;
+			int from = parseBracketChar( res);
+			if (m_itr[0] == '-' && m_itr[1] && m_itr[1] != ']')
+			{
+				++m_itr;
+				int to = parseBracketChar( res);
+				if (from < 0 || to < 0) all = true;
+				for (int ch = from; ch >= 0 && ch <= to; ++ch) charset.push_back( ch);
+			}
+			else if (from < 0)
+			{
+				all = true;
+			}
+			else
+			{
+				charset.push_back( from);
+			}
+		}
+		if (!*m_itr) throw Error( Error::SyntaxErrorInLexer);
+		++m_itr;
+		if (all)
+		{
+			addAll( res);
 		}
-		if (*si == '{')
+		else if (res)
 		{
-			bool empty = (si[1] == '0' && si[2] == ',');
-			(void)skipBrackets( si, '}');
-			return !empty;
+			res->append( inverse ? inverseCharset( charset) : charset);
 		}
 	}
-	return true;
-}
 
-static std::string inverseCharset( const std::string& charset)
-{
-	std::string rt;
-	std::bitset<256> cset;
-	for (char ch : charset) cset.set( ch);
-	for (int ii=33; ii<256; ++ii) if (!cset.test(ii)) {rt.push_back(ii);}
-	return rt;
-}
+	/// \return the character or -1 if it is not a single character (character class)
+	int parseBracketChar( std::string* res)
+	{
+		if (m_itr[0] == '[' && (m_itr[1] == ':' || m_itr[1] == '.' || m_itr[1] == '='))
+		{
+			char const end[3] = {m_itr[1], ']', 0};
+			char const* endptr = std::strstr( m_itr+2, end);
+			if (!endptr) throw Error( Error::SyntaxErrorInLexer);
+			m_itr = endptr + 2;
+			return -1;
+		}
+		if (*m_itr == '\\')
+		{
+			++m_itr;
+			if (!*m_itr) throw Error( Error::SyntaxErrorInLexer);
+			char ch = *m_itr++;
+			return std::ispunct( (unsigned char)ch) ? (unsigned char)ch : -1;
+		}
+		if (((unsigned char)*m_itr < 32U || (unsigned char)*m_itr >= 128) && res)
+		{
+			throw Error( Error::IllegalFirstCharacterInLexer, parseChar( m_itr));
+		}
+		return (unsigned char)*m_itr++;
+	}
 
-std::string LexemDef::activation( const std::string& source_)
-{
-	std::string rt;
-	bool empty = true;
-	char const* si = source_.c_str();
-	if (*si == '^') ++si;
-	while (empty)
+	/// \return true, if the element quantified can be left out
+	bool parseQuantifier()
 	{
-		if (*si == '\0')
+		bool optional = false;
+		if (*m_itr == '*' || *m_itr == '?')
 		{
-			return rt;
+			optional = true;
+			++m_itr;
 		}
-		else if (*si == '[')
+		else if (*m_itr == '+')
 		{
-			++si;
-			bool inverse = false;
-			if (*si == '^')
-			{
-				inverse = true;
-				++si;
-			}
-			bool hasCharacters = extractFirstCharacters( rt, si, ']');
-			bool potentiallyIgnored = (skipMultiplicator( si) == false);
-			empty = !hasCharacters || potentiallyIgnored;
-			if (inverse) rt = inverseCharset( rt);
+			++m_itr;
 		}
-		else if (*si == '(')
+		else if (*m_itr == '{')
 		{
-			for (;;)
+			++m_itr;
+			optional = true;
+			for (; *m_itr >= '0' && *m_itr <= '9'; ++m_itr)
 			{
-				char const* start = si+1;
-				bool hasCharacters = skipBrackets( si, ')');
-				bool potentiallyIgnored = (skipMultiplicator( si) == false);
-				empty = !hasCharacters || potentiallyIgnored;
-				rt.append( activation( std::string( start, si-start-1)));
-				if (*si != '|') break;
-				++si;
+				if (*m_itr != '0') optional = false;
 			}
+			while (*m_itr && *m_itr != '}') ++m_itr;
+			if (!*m_itr) throw Error( Error::SyntaxErrorInLexer);
+			++m_itr;
 		}
 		else
 		{
-			rt.push_back( parseFirstChar( si, true/*allowNonAscii*/));
-			empty = false;
+			return false;
 		}
+		if (*m_itr == '?') ++m_itr; //... non greedy
+		return optional;
 	}
-	return rt;
+
+	static void addAll( std::string* res)
+	{
+		if (res) res->append( inverseCharset( ""));
+	}
+
+private:
+	char const* m_itr;
+};
+
+std::string LexemDef::activation( const std::string& source_)
+{
+	return ActivationParser( source_).parse();
 }
 
 std::pair<std::string_view,int> LexemDef::match( const char* srcptr, std::size_t srclen) const
-- 
2.43.0


From 65f75ab56add19fc1ecf0b66bc490601c26901a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 22/51] fix: grammars declaring keywords before tokens gave a
 compiler confusing them, keywords with the name of a token were taken for the
 token

---
 src/automaton_parser.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index da02090..fded8cf 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -425,7 +425,6 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParseProductionElement)
 					{
-						if (!rt.lexer.lexemId( lexem.value())) rt.lexer.defineLexem( lexem.value());
 						rt.prodlist.back().right.push_back( ProductionNodeDef( lexem.value(), false/*not a symbol, raw string implicitly defined*/));
 					}
 					else if (state == ParseCallArg)
@@ -617,7 +616,26 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		}
 		if (state != Init) throw Error( Error::UnexpectedEofInGrammarDef);
 
-		// [2] Label grammar production elements:
+		// [2] Define the keywords after all named lexems, so that the terminal numbers do not depend on the order of declarations
+		//	and match those assigned when loading the lexer from the table generated:
+		for (auto const& prod : rt.prodlist)
+		{
+			for (auto const& element : prod.right)
+			{
+				if (element.symbol()) continue;
+				int lxid = rt.lexer.lexemId( element.name());
+				if (!lxid)
+				{
+					rt.lexer.defineLexem( element.name());
+				}
+				else if (!rt.lexer.isKeyword( lxid))
+				{
+					throw Error( Error::KeywordDefinedTwiceInLexer, element.name(), prod.line);
+				}
+			}
+		}
+
+		// [3] Label grammar production elements:
 		for (auto& prod : rt.prodlist)
 		{
 			if (rt.lexer.lexemId( prod.left.name()))
@@ -647,7 +665,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 			}
 		}
 
-		// [3] Test if all rules are reachable and the first rule defines a valid start symbol:
+		// [4] Test if all rules are reachable and the first rule defines a valid start symbol:
 		std::string unreachableListString;
 		for (auto const& pr : prodmap)
 		{
@@ -672,7 +690,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		{
 			throw Error( Error::UnreachableNonTerminalInGrammarDef, unreachableListString);
 		}
-		// [4] Test if start symbol (head of first production) appears only once on the left side and never on the right side:
+		// [5] Test if start symbol (head of first production) appears only once on the left side and never on the right side:
 		int startSymbolLeftCount = 0;
 		for (auto const& prod: rt.prodlist)
 		{
@@ -687,13 +705,13 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 			throw Error( Error::StartSymbolDefinedTwiceInGrammarDef, rt.prodlist[0].left.name());
 		}
 
-		// [5] Test complexity:
+		// [6] Test complexity:
 		if (nonTerminalIdMap.size() >= Automaton::MaxNonterminal)
 		{
 			throw Error( Error::ComplexityMaxNonterminalInGrammarDef);
 		}
 
-		// [6] Test for duplicate productions:
+		// [7] Test for duplicate productions:
 		std::set<std::string> prodset;
 		for (auto const& prod: rt.prodlist)
 		{
-- 
2.43.0


From 70c3cd77ba0ed6e37ac33b6aad2426a7609aeaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 23/51] fix: keywords containing a dollar sign were not
 recognized, the pattern of keywords was built from the rest of the grammar
 file

---
 src/lexer.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 36c7f06..ca77b69 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -17,7 +17,7 @@
 
 using namespace mewa;
 
-#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^"
+#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^$"
 
 static std::string_view parseChar( char const* si)
 {
@@ -511,14 +511,13 @@ void Lexer::defineIndentLexems( int line, const std::string_view& open, const st
 static std::string stringToRegex( const std::string_view& opr)
 {
 	std::string rt;
-	char const* si = opr.data();
-	for (; *si; ++si)
+	for (char ch : opr)
 	{
-		if (0!=std::strchr( REGEX_ESCAPE_CHARS, *si))
+		if (ch && 0!=std::strchr( REGEX_ESCAPE_CHARS, ch))
 		{
 			rt.push_back( '\\');
 		}
-		rt.push_back( *si);
+		rt.push_back( ch);
 	}
 	return rt;
 }
-- 
2.43.0


From 78d89bec89f038a8cc0010cfcc07ae8c69cd823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 24/51] fix: lexer looped on ignored tokens, lost closing
 indents after a comment at the end of the source, took NUL bytes for the end
 of the source and no new-line token for lines starting with a comment

---
 src/lexer.cpp | 72 +++++++++++++++++++++++----------------------------
 src/lexer.hpp | 11 ++++----
 2 files changed, 38 insertions(+), 45 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index ca77b69..51e2d32 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -282,14 +282,22 @@ char const* Scanner::next( int incr)
 	if (pos < 0 || pos > (int)m_src.size()) throw Error( Error::ArrayBoundReadInLexer);
 	for (; incr < 0; ++incr) {if (*--m_srcitr == '\n') --m_line;}
 	for (; incr > 0; --incr) {if (*m_srcitr++ == '\n') ++m_line;}
-	for (; *m_srcitr && (unsigned char)*m_srcitr <= 32; ++m_srcitr) {if (*m_srcitr == '\n') ++m_line;}
+	for (; *m_srcitr && (unsigned char)*m_srcitr <= 32; ++m_srcitr) {if (*m_srcitr == '\n') {++m_line; m_lineStart = true;}}
 	return m_srcitr;
 }
 
+void Scanner::skip( std::size_t size)
+{
+	if (std::string_view( m_srcitr, size).find( '\n') != std::string_view::npos) m_lineStart = true;
+	(void)next( size);
+}
+
 bool Scanner::scan( const char* str)
 {
-	char const* end = std::strstr( m_srcitr, str);
-	return (end && next( end-m_srcitr + std::strlen(str)));
+	std::size_t pos = std::string_view( m_srcitr, restsize()).find( str);
+	if (pos == std::string_view::npos) return false;
+	skip( pos + std::strlen(str));
+	return true;
 }
 
 int Scanner::indentCount( int tabSize) const noexcept
@@ -297,53 +305,33 @@ int Scanner::indentCount( int tabSize) const noexcept
 	int rt = 0;
 	char const* se = m_srcitr;
 	char const* si = m_src.data();
-	for (; se != si && *(se-1) != '\n' && (unsigned char)*(se-1) <= 32; --se)
+	for (; se != si && *(se-1) != '\n'; --se)
 	{
-		rt += *(se-1)=='\t' ? tabSize : 1;
+		if (!utf8mid( *(se-1))) rt += *(se-1)=='\t' ? tabSize : 1;
 	}
-	return (se == si || *(se-1) == '\n') ? rt : -1;
+	return rt;
 }
 
 Scanner::IndentToken Scanner::getIndentToken( int tabSize)
 {
-	if (m_indentConsumed)
+	if (!m_lineStart) return IndentNone;
+
+	int cnt = indentCount( tabSize);
+	int bk = m_indentstk.empty() ? 0 : m_indentstk.back();
+	if (bk < cnt)
 	{
-		m_indentConsumed = false;
-		return IndentNone;
+		m_indentstk.push_back( cnt);
+		return IndentOpen;
 	}
-	int cnt = indentCount( tabSize);
-	if (cnt == -1) return IndentNone;
-	if (m_indentstk.empty())
+	else if (bk > cnt)
 	{
-		if (cnt == 0)
-		{
-			m_indentConsumed = true;
-			return IndentNewLine;
-		}
-		else
-		{
-			m_indentstk.push_back( cnt);
-			return IndentOpen;
-		}
+		m_indentstk.pop_back();
+		return IndentClose;
 	}
 	else
 	{
-		int bk = m_indentstk.back();
-		if (bk < cnt)
-		{
-			m_indentstk.push_back( cnt);
-			return IndentOpen;
-		}
-		else if (bk > cnt)
-		{
-			m_indentstk.pop_back();
-			return IndentClose;
-		}
-		else
-		{
-			m_indentConsumed = true;
-			return IndentNewLine;
-		}
+		m_lineStart = false;
+		return IndentNewLine;
 	}
 }
 
@@ -598,7 +586,7 @@ Lexem Lexer::next( Scanner& scanner) const
 	for (;;)
 	{
 		char const* start = scanner.next();
-		if (*start == '\0')
+		if (scanner.restsize() == 0)
 		{
 			if (m_indentLexems.defined() && scanner.getEofIndentToken() == Scanner::IndentClose)
 			{
@@ -621,7 +609,7 @@ Lexem Lexer::next( Scanner& scanner) const
 				{
 					if (!scanner.scan( "\n"))
 					{
-						return Lexem( scanner.line()); //... no EOLN then return EOF
+						scanner.skip( scanner.restsize()); //... no EOLN then skip to EOF
 					}
 					break; //... comment skipped, fetch next lexem
 				}
@@ -676,6 +664,10 @@ Lexem Lexer::next( Scanner& scanner) const
 				scanner.next( maxlen);
 				return Lexem( m_defar[ matchidx].name(), m_defar[ matchidx].id(), std::string_view( matchstart, matchsize), line);
 			}
+			else
+			{
+				scanner.skip( maxlen);
+			}
 		}
 	}
 }
diff --git a/src/lexer.hpp b/src/lexer.hpp
index 3c226b5..1460796 100644
--- a/src/lexer.hpp
+++ b/src/lexer.hpp
@@ -95,18 +95,19 @@ class Scanner
 {
 public:
 	explicit Scanner( const std::string_view& src_)
-		:m_src(src_),m_srcitr(src_.data()),m_line(1),m_indentstk(),m_indentConsumed(false){void checkNullTerminated();}
+		:m_src(src_),m_srcitr(src_.data()),m_line(1),m_indentstk(),m_lineStart(true){void checkNullTerminated();}
 	explicit Scanner( const std::string& src_)
-		:m_src(src_),m_srcitr(src_.c_str()),m_line(1),m_indentstk(),m_indentConsumed(false){}
+		:m_src(src_),m_srcitr(src_.c_str()),m_line(1),m_indentstk(),m_lineStart(true){}
 	Scanner( const Scanner& o)
-		:m_src(o.m_src),m_srcitr(o.m_srcitr),m_line(o.m_line),m_indentstk(o.m_indentstk),m_indentConsumed(o.m_indentConsumed){}
+		:m_src(o.m_src),m_srcitr(o.m_srcitr),m_line(o.m_line),m_indentstk(o.m_indentstk),m_lineStart(o.m_lineStart){}
 	Scanner& operator=( const Scanner& o)
-		{m_src=o.m_src; m_srcitr=o.m_srcitr; m_line=o.m_line; m_indentstk=o.m_indentstk; m_indentConsumed=o.m_indentConsumed; return *this;}
+		{m_src=o.m_src; m_srcitr=o.m_srcitr; m_line=o.m_line; m_indentstk=o.m_indentstk; m_lineStart=o.m_lineStart; return *this;}
 
 	int line() const noexcept			{return m_line;}
 
 	char const* next( int incr=0);
 	char const* current() const noexcept		{return m_srcitr;}
+	void skip( std::size_t size);
 	bool scan( const char* end);
 	bool match( const char* str);
 	int indentCount( int tabSize) const noexcept;
@@ -124,7 +125,7 @@ private:
 	char const* m_srcitr;
 	int m_line;
 	std::vector<int> m_indentstk;
-	bool m_indentConsumed;
+	bool m_lineStart;				//< true, if no lexem has been emitted yet on the current line
 };
 
 
-- 
2.43.0


From 35f10369a1aee9270f9c9ef966c92b88453cc424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 25/51] fix: a character starting a keyword but no token was
 taken for the keyword with an empty value, the compiler looped

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 51e2d32..166db9e 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -631,7 +631,7 @@ Lexem Lexer::next( Scanner& scanner) const
 			{
 				if (idx >= (int)m_defar.size()) throw Error( Error::ArrayBoundReadInLexer);
 				auto mm = m_defar[ idx].match( start, scanner.restsize());
-				if (maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
+				if (mm.second > 0 && maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
 				{
 					maxlen = mm.second;
 					matchstart = mm.first.data();
-- 
2.43.0


From 88f87068ca7ceec894184937b1c1f21e82625e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 26/51] fix: sources with many items on the top level overran
 the Lua stack

---
 src/lua_run_compiler.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index ab91c3c..0b41c12 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -146,8 +146,15 @@ static int getLuaStackReductionSize( const std::pmr::vector<State>& stateStack,
 	return end-start;
 }
 
+static void luaReserveStack( lua_State* ls)
+{
+	// The nodes of the AST not reduced yet are elements on the Lua stack, the stack has to grow with them:
+	if (!lua_checkstack( ls, LUA_MINSTACK)) throw mewa::Error( mewa::Error::CompiledSourceTooComplex);
+}
+
 static void luaPushLexem( lua_State* ls, const mewa::Lexem& lexem)
 {
+	luaReserveStack( ls);
 	lua_createtable( ls, 0/*size array*/, 3+1/*size struct + one reserved for free use*/);	// STK [TABLE]
 	lua_pushliteral( ls, "name");								// STK [TABLE] "name"
 	lua_pushlstring( ls, lexem.name().data(), lexem.name().size());				// STK [TABLE] "arg" [NAME]
@@ -224,6 +231,8 @@ static void luaReduceStruct(
 		}
 	}
 	int structsize = scopeflag == mewa::Automaton::Action::NoScope ? 3:4;
+
+	luaReserveStack( ls);
 											// STK [ARG1]...[ARGN]
 	lua_createtable( ls, 0/*size array*/, structsize+1/*one reserved for free use*/);// STK [ARG1]...[ARGN] [TABLE]
 
@@ -332,6 +341,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbgout, int options_index)
 {
 	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadElementOnCompilerStack, mewa::string_format( "%s line %d", __FILE__, (int)__LINE__));
+	luaReserveStack( ls);
 	lua_pushcfunction( ls, &lua_pcall_errorhandler);		// STK: [EHND] 
 	lua_pushvalue( ls, li);						// STK: [EHND] [NODE]
 	lua_pushliteral( ls, "call");					// STK: [EHND] [NODE] "call"
@@ -407,7 +417,7 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 			std::string resstr( mewa::luaToString( ls, -1, true/*formatted*/, 0/*no maximum depth*/));
 			printDebug( dbgout, "%s\n", resstr.c_str());
 		}
-		lua_pop( ls, 1);					// STK: 
+		lua_pop( ls, 4);					// STK: 
 	}
 }
 
-- 
2.43.0


From 909975c0d2ad68bc952bcf9f0598983b6ba1e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 27/51] fix: mewa -l did not terminate on block comments of
 several lines and at a comment closing the file, attributes got the end of
 comments attached

---
 src/automaton_parser.cpp | 60 ++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index fded8cf..9c2e23e 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -16,6 +16,7 @@
 #include "utf8.hpp"
 #include <map>
 #include <algorithm>
+#include <cstring>
 #include <type_traits>
 
 using namespace mewa;
@@ -751,13 +752,13 @@ std::string mewa::printLuaTypeSystemStub( const LanguageDef& langdef)
 
 static char const* skipSpaces( char const* str, const char* end=nullptr)
 {
-	for (; (unsigned char)*str <= 32 && *str != '\n' && str != end; ++str){}
+	for (; str != end && (unsigned char)*str <= 32 && *str != '\n'; ++str){}
 	return str;
 }
 
 static char const* skipEoln( char const* str, const char* end=nullptr)
 {
-	for (; *str != '\n' && str != end; ++str){}
+	for (; str != end && *str != '\n'; ++str){}
 	return str;
 }
 
@@ -775,6 +776,7 @@ static std::vector<std::string> splitLines( char const* str, std::size_t sz)
 			--nn;
 		}
 		rt.emplace_back( start, nn);
+		if (str < end) ++str; //skip the end of line
 	}
 	while (!rt.empty() && rt.back().empty())
 	{
@@ -833,58 +835,44 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 	Lexem lexem( 1/*line*/);
 	std::vector<std::string> comment;
 	std::vector<LanguageDecorator> decorators;
-	std::size_t symlen = 0;
-	int line = 0;
+	std::vector<int> lines;
 	char const* start = scanner.next();
-	for (; *start; start = scanner.next( symlen))
+	for (; scanner.restsize(); start = scanner.next())
 	{
+		int line = scanner.line();
+		char const* eof = start + scanner.restsize();
 		comment.clear();
 		if (start[0] == '#' || (start[0] == '/' && start[1] == '/'))
 		{
-			line = scanner.line();
-			start += start[0] == '#' ? 1:2;
-			if (scanner.scan( "\n"))
-			{
-				comment.emplace_back( start, scanner.current() - start - 1);
-			}
-			else
-			{
-				comment.emplace_back( start);
-			}
-			symlen = 0;
+			char const* content = start + (start[0] == '#' ? 1:2);
+			char const* end = skipEoln( content, eof);
+			comment = splitLines( content, end - content);
+			scanner.skip( end - start);
 		}
 		else if (start[0] == '/' && start[1] == '*')
 		{
-			line = scanner.line();
-			start += 2;
-			if (scanner.scan( "*/"))
-			{
-				comment = splitLines( start, scanner.current() - start);
-			}
-			else
-			{
-				throw Error( Error::UnexpectedEofInGrammarDef);
-			}
-			symlen = 1;
+			std::string_view content( start + 2, eof - start - 2);
+			std::size_t size = content.find( "*/");
+			if (size == std::string_view::npos) throw Error( Error::UnexpectedEofInGrammarDef, line);
+			comment = splitLines( content.data(), size);
+			scanner.skip( size + 4);
 		}
 		else
 		{
-			line = scanner.line();
 			grammarLexer.next( scanner);
-			for (auto const& dc : decorators)
+			for (std::size_t di = 0; di < decorators.size(); ++di)
 			{
-				if (LanguageDecorator::isReservedAttribute( dc.name))
+				if (LanguageDecorator::isReservedAttribute( decorators[ di].name))
 				{
-					throw Error( Error::UsingReservedAttributeNameInGrammarDef);
+					throw Error( Error::UsingReservedAttributeNameInGrammarDef, decorators[ di].name, lines[ di]);
 				}
-				rt.addDecorator( line, dc);
+				rt.addDecorator( line, decorators[ di]);
 			}
 			decorators.clear();
+			lines.clear();
 		}
-		if (!comment.empty())
-		{
-			extractDecorators( decorators, comment);
-		}
+		extractDecorators( decorators, comment);
+		lines.resize( decorators.size(), line);
 	}
 	return rt;
 }
-- 
2.43.0


From 5964fd3421fbab73fb92a966a213e5f28121667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 28/51] fix: names, patterns and call arguments containing
 quotes, backslashes or control characters were written to the generated Lua
 unescaped or not at all

---
 src/automaton.cpp            |  4 +--
 src/automaton.hpp            |  2 ++
 src/automaton_tostring.cpp   | 36 +++++++++++++++++++----
 src/languagedef_tostring.cpp | 55 +++++++++++-------------------------
 4 files changed, 52 insertions(+), 45 deletions(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 600f245..6dc4d65 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1260,9 +1260,9 @@ std::string Automaton::Call::tostring() const
 			break;
 		case Automaton::Call::StringArg:
 			rt.push_back( ' ');
-			rt.push_back( '"');
+			rt.push_back( quote());
 			rt.append( m_arg);
-			rt.push_back( '"');
+			rt.push_back( quote());
 			break;
 		case Automaton::Call::ReferenceArg:
 			rt.push_back( ' ');
diff --git a/src/automaton.hpp b/src/automaton.hpp
index 433b5a4..0b38888 100644
--- a/src/automaton.hpp
+++ b/src/automaton.hpp
@@ -272,6 +272,8 @@ public:
 		const std::string& function() const noexcept			{return m_function;}
 		const std::string& arg() const noexcept				{return m_arg;}
 		ArgumentType argtype() const noexcept				{return m_argtype;}
+		/// \brief Get the quote for a string argument, a string of the grammar never contains both kinds of quotes
+		char quote() const noexcept					{return m_arg.find( '"') == std::string::npos ? '"' : '\'';}
 
 		bool operator < (const Call& o) const noexcept
 		{
diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 9ee3cc7..7d488f6 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -14,6 +14,7 @@
 #include "version.hpp"
 #include "lexer.hpp"
 #include "error.hpp"
+#include "strings.hpp"
 #include <iostream>
 #include <sstream>
 
@@ -51,6 +52,23 @@ static void printStringArray( std::ostream& outstream, const char* tablename, co
 	outstream << (sep ? "},\n" : "}\n");
 }
 
+static std::string escapeControlCharacters( const std::string& luasource)
+{
+	std::string rt;
+	for (char ch : luasource)
+	{
+		if ((unsigned char)ch < 32 || ch == 127)
+		{
+			rt.append( mewa::string_format( "\\%03d", (int)ch));
+		}
+		else
+		{
+			rt.push_back( ch);
+		}
+	}
+	return rt;
+}
+
 static bool isConstantArgument( const std::string& val)
 {
 	if (val.empty()) return false;
@@ -140,6 +158,7 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 	int tidx = 0;
 	for (auto call : table)
 	{
+		char quote;
 		outstream << ((tidx++) ? ",\n\t\t{ " : "\n\t\t{ ");
 
 		switch (call.argtype())
@@ -153,7 +172,8 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 				outstream << "name=";
 				printString( outstream, call.function() + " " + call.arg());
 				outstream << ", proc=" << g_typeSystemModulePrefix << call.function();
-				outstream << ", obj=\"" << call.arg() << "\"";
+				quote = call.quote();
+				outstream << ", obj=" << quote << escapeControlCharacters( call.arg()) << quote;
 				break;
 			case Automaton::Call::ReferenceArg:
 				outstream << "name=";
@@ -161,7 +181,7 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 				if (isConstantArgument( call.arg()))
 				{
 					outstream << ", proc=" << g_typeSystemModulePrefix << call.function();
-					outstream << ", obj=" << call.arg();
+					outstream << ", obj=" << escapeControlCharacters( call.arg());
 				}
 				else
 				{
@@ -182,15 +202,21 @@ std::string Automaton::tostring() const
 	outstream << "\tmewa = \"" << MEWA_VERSION_STRING << "\",\n";
 	if (!language().empty())
 	{
-		outstream << "\tlanguage = \"" << language() << "\",\n";
+		outstream << "\tlanguage = ";
+		printString( outstream, language());
+		outstream << ",\n";
 	}
 	if (!typesystem().empty())
 	{
-		outstream << "\ttypesystem = \"" << typesystem() << "\",\n";
+		outstream << "\ttypesystem = ";
+		printString( outstream, typesystem());
+		outstream << ",\n";
 	}
 	if (!cmdline().empty())
 	{
-		outstream << "\tcmdline = \"" << cmdline() << "\",\n";
+		outstream << "\tcmdline = ";
+		printString( outstream, cmdline());
+		outstream << ",\n";
 	}
 	printLexer( outstream, "lexer", lexer(), true/*sep*/);
 	printStringArray( outstream, "nonterminal", m_nonterminals, true/*sep*/);
diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 50904dc..734cdcd 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -11,22 +11,29 @@
 /// \brief Function to print Lexem definitions as Lua table
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
+#include <cstdio>
 
 using namespace mewa;
 
-static std::string escapeString( const std::string& str)
+static std::string escapeString( const std::string& str, char quote)
 {
 	std::string rt;
-	char const* si = str.c_str();
-	for (; *si; ++si)
+	for (char ch : str)
 	{
-		if (*si == '\\')
+		if (ch == '\\' || ch == quote)
 		{
-			rt.append( "\\\\");
+			rt.push_back( '\\');
+			rt.push_back( ch);
+		}
+		else if ((unsigned char)ch < 32 || ch == 127)
+		{
+			char buf[ 8];
+			std::snprintf( buf, sizeof(buf), "\\%03d", (int)ch);
+			rt.append( buf);
 		}
 		else
 		{
-			rt.push_back( *si);
+			rt.push_back( ch);
 		}
 	}
 	return rt;
@@ -34,38 +41,10 @@ static std::string escapeString( const std::string& str)
 
 void mewa::printString( std::ostream& outstream, const std::string& str)
 {
-	char const* sqpos = std::strchr( str.c_str(), '\'');
-	char const* dqpos = std::strchr( str.c_str(), '\"');
-	if (sqpos && dqpos)
-	{
-		sqpos = 0;
-		dqpos = 0;
-		char const* si = str.c_str();
-		for (; si; ++si)
-		{
-			if (*si == '\\')
-			{
-				++si;
-			}
-			else if (*si == '\'')
-			{
-				sqpos = si;
-			}
-			else if (*si == '\"')
-			{
-				dqpos = si;
-			}
-		}
-	}
-	if (dqpos)
-	{
-		if (sqpos) throw Error( Error::EscapeQuoteErrorInString, str);
-		outstream << "\'" << escapeString( str) << "\'";
-	}
-	else
-	{
-		outstream << "\"" << escapeString( str) << "\"";
-	}
+	bool hasSingleQuote = str.find( '\'') != std::string::npos;
+	bool hasDoubleQuote = str.find( '\"') != std::string::npos;
+	char quote = hasDoubleQuote && !hasSingleQuote ? '\'' : '\"';
+	outstream << quote << escapeString( str, quote) << quote;
 }
 
 static void printArgument( std::ostream& outstream, const char* type, const std::vector<std::string>& args)
-- 
2.43.0


From 81e7861f0ccda09a67c0f5b099f2a7cca921311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 29/51] fix: mewa -l lost the attributes of declarations
 spanning several lines, lexer definitions and productions got the line of
 their end

---
 src/automaton_parser.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 9c2e23e..2bbdedf 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -192,6 +192,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 	{
 		// [1] Parse grammar:
 		std::string_view rulename;
+		int ruleline = 0;
 		std::string_view patternstr;
 		std::string_view cmdname;
 		std::vector<std::string_view> cmdargs;
@@ -219,6 +220,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					if (state == Init)
 					{
 						rulename = lexem.value();
+						ruleline = lexem.line();
 						patternstr.remove_suffix( patternstr.size());
 						selectidx = 0;
 						priority = Priority();
@@ -468,6 +470,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 				case GrammarLexer::PERCENT:
 					if (state == Init)
 					{
+						ruleline = lexem.line();
 						cmdname.remove_suffix( cmdname.size());
 						cmdargs.clear();
 						state = ParseLexerCommand;
@@ -497,7 +500,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					else if (state == ParseProductionAttributes || state == ParseAssign)
 					{
 						prodmap.insert( std::pair<std::string_view, std::size_t>( rulename, rt.prodlist.size()));
-						rt.prodlist.push_back( ProductionDef( lexem.line(), rulename, ProductionNodeDefList(), priority));
+						rt.prodlist.push_back( ProductionDef( ruleline, rulename, ProductionNodeDefList(), priority));
 						if (nonTerminalIdMap.insert( std::pair<std::string_view, int>( rulename, nonTerminalIdMap.size()+1)).second/*insert took place*/)
 						{
 							rt.nonterminals.push_back( std::string( rulename));
@@ -544,22 +547,22 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 						else if (caseInsensitiveEqual( cmdname, "IGNORE"))
 						{
 							if (cmdargs.size() != 1) throw Error( Error::CommandNumberOfArgumentsInGrammarDef, cmdname);
-							rt.lexer.defineIgnore( lexem.line(), cmdargs[ 0]);
+							rt.lexer.defineIgnore( ruleline, cmdargs[ 0]);
 						}
 						else if (caseInsensitiveEqual( cmdname, "BAD"))
 						{
 							if (cmdargs.size() != 1) throw Error( Error::CommandNumberOfArgumentsInGrammarDef, cmdname);
-							rt.lexer.defineBadLexem( lexem.line(), cmdargs[ 0]);
+							rt.lexer.defineBadLexem( ruleline, cmdargs[ 0]);
 						}
 						else if (caseInsensitiveEqual( cmdname, "COMMENT"))
 						{
 							if (cmdargs.size() == 1)
 							{
-								rt.lexer.defineEolnComment( lexem.line(), cmdargs[ 0]);
+								rt.lexer.defineEolnComment( ruleline, cmdargs[ 0]);
 							}
 							else if (cmdargs.size() == 2)
 							{
-								rt.lexer.defineBracketComment( lexem.line(), cmdargs[ 0], cmdargs[ 1]);
+								rt.lexer.defineBracketComment( ruleline, cmdargs[ 0], cmdargs[ 1]);
 							}
 							else
 							{
@@ -573,7 +576,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 								throw Error( Error::CommandNumberOfArgumentsInGrammarDef, cmdname);
 							}
 							int indent = convertStringToInt( cmdargs[3]);
-							rt.lexer.defineIndentLexems( lexem.line(), cmdargs[0], cmdargs[1], cmdargs[2], indent);
+							rt.lexer.defineIndentLexems( ruleline, cmdargs[0], cmdargs[1], cmdargs[2], indent);
 						}
 						else
 						{
@@ -582,11 +585,11 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParsePatternSelect)
 					{
-						rt.lexer.defineLexem( lexem.line(), rulename, patternstr);
+						rt.lexer.defineLexem( ruleline, rulename, patternstr);
 					}
 					else if (state == ParseEndOfLexemDef)
 					{
-						rt.lexer.defineLexem( lexem.line(), rulename, patternstr, selectidx);
+						rt.lexer.defineLexem( ruleline, rulename, patternstr, selectidx);
 					}
 					else if (state == ParseProductionElement || state == ParseEndOfProduction || state == ParseCall)
 					{
-- 
2.43.0


From d1a1784ad4bdd640620083e4042fc5eac37c5816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 30/51] fix: mewa -l wrote attribute names that are Lua
 keywords unquoted and described names issued for indentation as tokens

---
 src/languagedef_tostring.cpp | 23 +++++++++++++++++------
 src/strings.cpp              | 17 +++++++++++++++++
 src/strings.hpp              |  3 +++
 3 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 734cdcd..a9e317c 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -11,6 +11,7 @@
 /// \brief Function to print Lexem definitions as Lua table
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
+#include "strings.hpp"
 #include <cstdio>
 
 using namespace mewa;
@@ -76,11 +77,20 @@ static void printDecorators( std::ostream& outstream, const std::vector<Language
 	for (auto const& dc : decorators)
 	{
 		outstream << ",";
-		printArgument( outstream, dc.name.c_str(), dc.content);
+		printArgument( outstream, isLuaIdentifier( dc.name) ? dc.name.c_str() : string_format( "[\"%s\"]", dc.name.c_str()).c_str(), dc.content);
 	}
 }
 
-static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const Lexer& lexer, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
+static std::string lexemName( const std::vector<Lexer::Definition>& defs, int id)
+{
+	for (auto const& def : defs)
+	{
+		if (def.id() == id && def.type() == Lexer::Definition::NamedPatternLexem) return def.name();
+	}
+	return std::string();
+}
+
+static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
 {
 	for (auto const& def : defs)
 	{
@@ -99,6 +109,7 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				break;
 
 			case Lexer::Definition::NamedPatternLexem:
+				if (def.pattern().empty()) break; //... name of a token issued for indentiation, not declared as token
 				outstream << (cnt++ ? indentstr : (indentstr+1));
 				outstream << "{";
 				printArgument( outstream, "op", "TOKEN");
@@ -163,11 +174,11 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				outstream << "{";
 				printArgument( outstream, "op", "INDENTL");
 				outstream << ",";
-				printArgument( outstream, "open", lexer.lexemName( def.openind()));
+				printArgument( outstream, "open", lexemName( defs, def.openind()));
 				outstream << ",";
-				printArgument( outstream, "close", lexer.lexemName( def.closeind()));
+				printArgument( outstream, "close", lexemName( defs, def.closeind()));
 				outstream << ",";
-				printArgument( outstream, "nl", lexer.lexemName( def.newline()));
+				printArgument( outstream, "nl", lexemName( defs, def.newline()));
 				outstream << ",";
 				printArgument( outstream, "tabsize", def.tabsize());
 				printDecorators( outstream, decorators.get( def.line()));
@@ -247,7 +258,7 @@ std::string mewa::printLuaLanguageDefinition( const LanguageDef& langdef, const
 	out << indentstr1 << "RULES = {";
 	auto const& defs = langdef.lexer.getDefinitions();
 	int cnt = 0;
-	printLexerDefinitions( out, indentstr2, langdef.lexer, defs, decoratormap, cnt);
+	printLexerDefinitions( out, indentstr2, defs, decoratormap, cnt);
 	printProductions( out, indentstr2, langdef, decoratormap, cnt);
 	out << "\n\t}\n}\nreturn languagedef\n\n";
 	std::string rt = out.str();
diff --git a/src/strings.cpp b/src/strings.cpp
index 5351b97..72e80cb 100644
--- a/src/strings.cpp
+++ b/src/strings.cpp
@@ -124,3 +124,20 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 	return rt;
 }
 
+bool mewa::isLuaIdentifier( const std::string_view& str)
+{
+	static const char* keywords[] = {
+		"and","break","do","else","elseif","end","false","for","function","goto","if","in","local",
+		"nil","not","or","repeat","return","then","true","until","while"};
+	if (str.empty() || isDigit( str[0])) return false;
+	for (char ch : str)
+	{
+		if (!isAlphaNum( ch)) return false;
+	}
+	for (char const* keyword : keywords)
+	{
+		if (str == keyword) return false;
+	}
+	return true;
+}
+
diff --git a/src/strings.hpp b/src/strings.hpp
index ec97796..98927fd 100644
--- a/src/strings.hpp
+++ b/src/strings.hpp
@@ -32,6 +32,9 @@ std::string string_format( const char* fmt, ...);
 /// \param[in] substmap variables to substitute
 std::string template_format( const std::string_view& templatstr, char sb, char eb, const std::map<std::string,std::string>& substmap);
 
+/// \brief Test if a string is a Lua identifier and not a Lua keyword
+bool isLuaIdentifier( const std::string_view& str);
+
 }//namespace
 
 #else
-- 
2.43.0


From c4657fdc33c7841c5977b1d0aa63d4f19c47a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:15 +0000
Subject: [PATCH 31/51] fix: selected groups not existing in a pattern and
 names of indentation tokens declared as tokens were accepted, error for
 duplicate names had no line

---
 src/lexer.cpp | 8 ++++++--
 src/lexer.hpp | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 166db9e..6b435bb 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -431,7 +431,7 @@ int Lexer::defineLexem_( int line, const std::string_view& name, const std::stri
 					m_namelist.push_back( std::string( name));
 				}
 			}
-			else if (keyword_)
+			else if (keyword_ || (m_indentLexems.contains( ins.first->second) && !pattern.empty()))
 			{
 				throw Error( Error::KeywordDefinedTwiceInLexer, name);
 			}
@@ -443,6 +443,10 @@ int Lexer::defineLexem_( int line, const std::string_view& name, const std::stri
 	{
 		throw Error( Error::InvalidRegexInLexer, pattern);
 	}
+	if (select > m_defar.back().nofGroups())
+	{
+		throw Error( Error::ValueOutOfRangeInGrammarDef, string_format( "%zu", select));
+	}
 	if (pattern.size() > 0)
 	{
 		int firstChars = 0;
@@ -480,7 +484,7 @@ int Lexer::defineLexemId( const std::string_view& name)
 	}
 	else
 	{
-		throw std::runtime_error( Error( Error::KeywordDefinedTwiceInLexer));
+		throw Error( Error::KeywordDefinedTwiceInLexer, name);
 	}
 	m_defar.emplace_back( 0/*no line*/, std::string(name), id_);
 	return ins.first->second;
diff --git a/src/lexer.hpp b/src/lexer.hpp
index 1460796..a6ce0cb 100644
--- a/src/lexer.hpp
+++ b/src/lexer.hpp
@@ -44,6 +44,7 @@ public:
 	const std::string& source() const noexcept		{return m_source;}
 	const std::bitset<256> activate() const noexcept	{return m_activate;}
 	std::size_t select() const noexcept			{return m_select;}
+	std::size_t nofGroups() const				{return m_pattern.mark_count();}
 	int id() const noexcept					{return m_id;}
 	bool keyword() const noexcept				{return m_keyword;}
 	std::string activation() const				{return activation( m_source);}
@@ -214,6 +215,7 @@ public:
 		int tabSize;
 
 		bool defined() const noexcept {return open;}
+		bool contains( int id) const noexcept {return open && (id == open || id == close || id == newLine);}
 	};
 	const IndentLexems& indentLexems() const noexcept
 	{
-- 
2.43.0


From bbbbc0fe6fd835af0cab3f53300c3cc2e194e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:15 +0000
Subject: [PATCH 32/51] fix: too many productions were reported as too many
 states, too long productions without line

---
 src/automaton.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 6dc4d65..20e7439 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1284,7 +1284,7 @@ void Automaton::build( const std::string& source, std::vector<Error>& warnings,
 	// [2] Test complexity boundaries:
 	if (langdef.prodlist.size() >= (std::size_t)MaxNofProductions)
 	{
-		throw Error( Error::ComplexityMaxStateInGrammarDef);
+		throw Error( Error::ComplexityMaxNofProductionsInGrammarDef);
 	}
 	if (langdef.lexer.nofTerminals() >= MaxTerminal)
 	{
@@ -1294,11 +1294,11 @@ void Automaton::build( const std::string& source, std::vector<Error>& warnings,
 	{
 		if (prod.right.size() >= MaxProductionLength)
 		{
-			throw Error( Error::ComplexityMaxProductionLengthInGrammarDef);
+			throw Error( Error::ComplexityMaxProductionLengthInGrammarDef, prod.line);
 		}
 		if (prod.priority.value < 0 || prod.priority.value >= MaxPriority)
 		{
-			throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef);
+			throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef, prod.line);
 		}
 	}
 	// [3] Calculate some sets needed for the build:
-- 
2.43.0


From 2f086dc7a3b35e82ff3c44f36da56092d2d0f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 33/51] fix: write errors detected when closing a file were
 ignored, the error code was none of errno

---
 src/fileio.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 9288202..75c612d 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -25,10 +25,14 @@ void mewa::writeFile( const char* filename, const std::string& content)
 	if (!ff) throw Error( (Error::Code)errno, filename);
 	if (content.size() != std::fwrite( content.c_str(), 1, content.size(), ff))
 	{
+		int eno = errno;
 		std::fclose( ff);
-		throw Error( (Error::Code)std::ferror( ff), filename);
+		throw Error( (Error::Code)eno, filename);
+	}
+	if (0!=std::fclose( ff))
+	{
+		throw Error( (Error::Code)errno, filename);
 	}
-	std::fclose( ff);
 }
 
 void mewa::writeFile( const std::string& filename, const std::string& content)
@@ -51,7 +55,7 @@ std::string mewa::readFile( const char* filename)
 	}
 	rt.append( rbuf, nn);
 
-	int eno = std::ferror( ff);
+	int eno = std::ferror( ff) ? errno : 0;
 	bool eof = std::feof( ff);
 	std::fclose( ff);
 
-- 
2.43.0


From 06a1622367f74d839363fbddb24bf85cada82bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 34/51] fix: only the first occurrence of a key in a template
 was substituted and keys in substituted values too, --template=FILE took the
 file name as template, write errors on stdout were ignored

---
 src/mewa.cpp | 61 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 687aa01..321b574 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -23,10 +23,12 @@
 #include "version.hpp"
 #include <iostream>
 #include <sstream>
+#include <cerrno>
 #include <cstring>
 #include <string>
 #include <vector>
 #include <map>
+#include <utility>
 
 using namespace mewa;
 
@@ -111,32 +113,33 @@ compiler:run( nil, nil, arg[1])
 
 
 
-static std::string mapTemplateKey( const std::string& content, const char* key, const std::string& value)
+static std::string mapTemplate( const std::string& templat, const Automaton& automaton, const std::string& luabin)
 {
+	const std::pair<std::string,std::string> substs[] = {
+		{"%luabin%", luabin},
+		{"%typesystem%", automaton.typesystem()},
+		{"%language%", automaton.language()},
+		{"%cmdline%", automaton.cmdline()},
+		{"%automaton%", automaton.tostring()}};
 	std::string rt;
-	std::string pattern = std::string("%") + key + "%";
-	char const* pp = std::strstr( content.c_str(), pattern.c_str());
-	if (pp)
-	{
-		rt.append( content.c_str(), pp-content.c_str());
-		rt.append( value);
-		rt.append( pp + pattern.size());
-	}
-	else
+	std::size_t start = 0;
+	std::size_t pos = templat.find( '%');
+	while (pos != std::string::npos)
 	{
-		rt.append( content);
+		std::size_t next = pos+1;
+		for (auto const& subst : substs)
+		{
+			if (0==templat.compare( pos, subst.first.size(), subst.first))
+			{
+				rt.append( templat, start, pos-start);
+				rt.append( subst.second);
+				start = next = pos + subst.first.size();
+				break;
+			}
+		}
+		pos = templat.find( '%', next);
 	}
-	return rt;
-}
-
-static std::string mapTemplate( const std::string& templat, const Automaton& automaton, const std::string& luabin)
-{
-	std::string rt = templat;
-	rt = mapTemplateKey( rt, "luabin", luabin);
-	rt = mapTemplateKey( rt, "typesystem", automaton.typesystem());
-	rt = mapTemplateKey( rt, "language", automaton.language());
-	rt = mapTemplateKey( rt, "cmdline", automaton.cmdline());
-	rt = mapTemplateKey( rt, "automaton", automaton.tostring());
+	rt.append( templat, start, std::string::npos);
 	return rt;
 }
 
@@ -219,7 +222,7 @@ int main( int argc, const char* argv[] )
 				}
 				cmd = GenerateLanguageDescriptionForLua;
 			}
-			else if (0==std::memcmp( argv[argi], "-b", 2) || 0==std::memcmp( argv[argi], "--luabin=", 9))
+			else if (0==std::strncmp( argv[argi], "-b", 2) || 0==std::strncmp( argv[argi], "--luabin=", 9))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -244,7 +247,7 @@ int main( int argc, const char* argv[] )
 					luabin = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-o", 2) || 0==std::memcmp( argv[argi], "--output=", 9))
+			else if (0==std::strncmp( argv[argi], "-o", 2) || 0==std::strncmp( argv[argi], "--output=", 9))
 			{
 				int optofs = (argv[argi][1] == '-') ? 9:2;
 				if (argv[argi][ optofs])
@@ -263,7 +266,7 @@ int main( int argc, const char* argv[] )
 					outputFilename = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-d", 2) || 0==std::memcmp( argv[argi], "--dbgout=", 9))
+			else if (0==std::strncmp( argv[argi], "-d", 2) || 0==std::strncmp( argv[argi], "--dbgout=", 9))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -290,7 +293,7 @@ int main( int argc, const char* argv[] )
 					verbose = true;
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-t", 2) || 0==std::memcmp( argv[argi], "--template=", 11))
+			else if (0==std::strncmp( argv[argi], "-t", 2) || 0==std::strncmp( argv[argi], "--template=", 11))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -301,7 +304,7 @@ int main( int argc, const char* argv[] )
 				int optofs = (argv[argi][1] == '-') ? 11:2;
 				if (argv[argi][ optofs])
 				{
-					templat = argv[argi]+optofs;
+					templat = readFile( argv[argi]+optofs);
 				}
 				else
 				{
@@ -457,6 +460,10 @@ int main( int argc, const char* argv[] )
 				}
 				break;
 		}
+		if (!std::cout.flush())
+		{
+			throw mewa::Error( (mewa::Error::Code)EIO, "stdout");
+		}
 		return 0;
 	}
 	catch (const mewa::Error& err)
-- 
2.43.0


From 751a12ff0c55b2e6104e529d7ee382ee3b504634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 35/51] fix: names in calls that are no Lua identifiers and Lua
 constants as arguments gave a compiler that could not be loaded

---
 src/automaton_parser.cpp   | 22 ++++++++++++++++++++++
 src/automaton_tostring.cpp |  4 ++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 2bbdedf..a344842 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -143,6 +143,22 @@ static bool caseInsensitiveEqual( const std::string_view& a, const std::string_v
 	return ai == ae && bi == be;
 }
 
+static bool isLuaConstant( const std::string_view& str)
+{
+	return str == "true" || str == "false" || str == "nil";
+}
+
+/// \brief Check if a name in a call addresses a member of the typesystem module in Lua
+static void checkCallName( const std::string_view& str)
+{
+	std::size_t pos = 0;
+	for (std::size_t dot = str.find( '.'); dot != std::string_view::npos; pos = dot+1, dot = str.find( '.', pos))
+	{
+		if (!isLuaIdentifier( str.substr( pos, dot-pos))) throw Error( Error::UnexpectedTokenInGrammarDef, str);
+	}
+	if (!isLuaIdentifier( str.substr( pos))) throw Error( Error::UnexpectedTokenInGrammarDef, str);
+}
+
 LanguageDef mewa::parseLanguageDef( const std::string& source)
 {
 	LanguageDef rt;
@@ -235,22 +251,26 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParseCallName)
 					{
+						checkCallName( lexem.value());
 						call_function = std::string( lexem.value());
 						state = ParseCallArg;
 					}
 					else if (state == ParseCallArg)
 					{
+						if (!isLuaConstant( lexem.value())) checkCallName( lexem.value());
 						call_arg = std::string( lexem.value());
 						call_argtype = Automaton::Call::ReferenceArg;
 						state = ParseCallClose;
 					}
 					else if (state == ParseCallArgMemberValue)
 					{
+						if (!isLuaConstant( lexem.value())) checkCallName( lexem.value());
 						call_arg.append( lexem.value());
 						state = ParseCallArgMemberDelim;
 					}
 					else if (state == ParseCallArgMemberName)
 					{
+						checkCallName( lexem.value());
 						call_arg.append( lexem.value());
 						state = ParseCallArgMemberEquals;
 					}
@@ -276,11 +296,13 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 				case GrammarLexer::CALL:
 					if (state == ParseCallName)
 					{
+						checkCallName( lexem.value());
 						call_function = std::string( lexem.value());
 						state = ParseCallArg;
 					}
 					else if (state == ParseCallArg)
 					{
+						checkCallName( lexem.value());
 						call_arg = std::string( lexem.value());
 						call_argtype = Automaton::Call::ReferenceArg;
 						state = ParseCallClose;
diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 7d488f6..fc5de91 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -74,8 +74,8 @@ static bool isConstantArgument( const std::string& val)
 	if (val.empty()) return false;
 	char ch = val[0];
 	if (ch >= '0' && ch <= '9') return true;
-	if (ch == '{' || ch == '-') return true;
-	return false;
+	if (ch == '{') return true;
+	return val == "true" || val == "false" || val == "nil";
 }
 
 static void printLexer( std::ostream& outstream, const char* tablename, const Lexer& lexer, bool sep)
-- 
2.43.0


From e85634a5ed0e150bffe6f1bbe90e65a789a674ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 36/51] fix: semantic errors in grammars were reported with the
 line of the end of file, productions differing in quoting only were taken for
 duplicates

---
 src/automaton_parser.cpp | 47 +++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index a344842..a85cdad 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -666,7 +666,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		{
 			if (rt.lexer.lexemId( prod.left.name()))
 			{
-				throw Error( Error::DefinedAsTerminalAndNonterminalInGrammarDef, prod.left.name());
+				throw Error( Error::DefinedAsTerminalAndNonterminalInGrammarDef, prod.left.name(), prod.line);
 			}
 			prod.left.defineAsNonTerminal( nonTerminalIdMap.at( prod.left.name()));
 
@@ -678,12 +678,12 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					auto nt = nonTerminalIdMap.find( element.name());
 					if (nt == nonTerminalIdMap.end())
 					{
-						if (!lxid) throw Error( Error::UnresolvedIdentifierInGrammarDef, element.name());
+						if (!lxid) throw Error( Error::UnresolvedIdentifierInGrammarDef, element.name(), prod.line);
 						element.defineAsTerminal( lxid);
 					}
 					else
 					{
-						if (lxid) throw Error( Error::DefinedAsTerminalAndNonterminalInGrammarDef, element.name());
+						if (lxid) throw Error( Error::DefinedAsTerminalAndNonterminalInGrammarDef, element.name(), prod.line);
 						element.defineAsNonTerminal( nt->second);
 						usedSet.insert( element.name());
 					}
@@ -693,43 +693,54 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 
 		// [4] Test if all rules are reachable and the first rule defines a valid start symbol:
 		std::string unreachableListString;
+		int unreachableLine = 0;
+		std::set<std::string_view> unreachableSet;
 		for (auto const& pr : prodmap)
 		{
 			auto nt = nonTerminalIdMap.at( pr.first);
 			if (usedSet.find( pr.first) == usedSet.end())
 			{
-				if (nt != 1/*isn't the start symbol*/)
+				if (nt != 1/*isn't the start symbol*/ && unreachableSet.insert( pr.first).second)
 				{
-					if (!unreachableListString.empty()) unreachableListString.append( ", ");
+					if (unreachableListString.empty())
+					{
+						unreachableLine = rt.prodlist[ pr.second].line;
+					}
+					else
+					{
+						unreachableListString.append( ", ");
+					}
 					unreachableListString.append( pr.first);
 				}
 			}
-			else
+		}
+		for (auto const& prod: rt.prodlist)
+		{
+			for (auto const& element : prod.right)
 			{
-				if (nt == 1/*is the start symbol*/)
+				if (element.type() == ProductionNodeDef::NonTerminal && element.index() == 1/*is the start symbol*/)
 				{
-					throw Error( Error::StartSymbolReferencedInGrammarDef, pr.first);
+					throw Error( Error::StartSymbolReferencedInGrammarDef, element.name(), prod.line);
 				}
 			}
 		}
 		if (!unreachableListString.empty())
 		{
-			throw Error( Error::UnreachableNonTerminalInGrammarDef, unreachableListString);
+			throw Error( Error::UnreachableNonTerminalInGrammarDef, unreachableListString, unreachableLine);
 		}
 		// [5] Test if start symbol (head of first production) appears only once on the left side and never on the right side:
 		int startSymbolLeftCount = 0;
 		for (auto const& prod: rt.prodlist)
 		{
-			if (prod.left.index() == 1) ++startSymbolLeftCount;
+			if (prod.left.index() == 1 && ++startSymbolLeftCount > 1)
+			{
+				throw Error( Error::StartSymbolDefinedTwiceInGrammarDef, prod.left.name(), prod.line);
+			}
 		}
 		if (startSymbolLeftCount == 0)
 		{
 			throw Error( Error::EmptyGrammarDef);
 		}
-		else if (startSymbolLeftCount > 1)
-		{
-			throw Error( Error::StartSymbolDefinedTwiceInGrammarDef, rt.prodlist[0].left.name());
-		}
 
 		// [6] Test complexity:
 		if (nonTerminalIdMap.size() >= Automaton::MaxNonterminal)
@@ -738,12 +749,14 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		}
 
 		// [7] Test for duplicate productions:
-		std::set<std::string> prodset;
+		std::set<std::vector<ProductionNode> > prodset;
 		for (auto const& prod: rt.prodlist)
 		{
-			if (prodset.insert( prod.prodstring()).second == false /*not new*/)
+			std::vector<ProductionNode> prodnodes( prod.right.begin(), prod.right.end());
+			prodnodes.push_back( prod.left);
+			if (prodset.insert( prodnodes).second == false /*not new*/)
 			{
-				throw Error( Error::DuplicateProductionInGrammarDef, prod.prodstring());
+				throw Error( Error::DuplicateProductionInGrammarDef, prod.prodstring(), prod.line);
 			}
 		}
 	}
-- 
2.43.0


From 11bf1f4fcdfe9db38042f2ec5ba71237beff788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 37/51] fix: numbers and priorities out of range in grammars
 wrapped around and were accepted

---
 src/automaton_parser.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index a85cdad..ccf839f 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -17,6 +17,7 @@
 #include <map>
 #include <algorithm>
 #include <cstring>
+#include <limits>
 #include <type_traits>
 
 using namespace mewa;
@@ -94,8 +95,8 @@ static int convertStringToInt( const std::string_view& str)
 		char ch = str[ si];
 		if (ch >= '0' && ch <= '9')
 		{
+			if (rt > (std::numeric_limits<int>::max() - (ch - '0')) / 10) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 			rt = rt * 10 + (ch - '0');
-			if (rt < 0) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 		}
 		else
 		{
@@ -105,6 +106,16 @@ static int convertStringToInt( const std::string_view& str)
 	return rt;
 }
 
+static short convertStringToPriorityValue( const std::string_view& str)
+{
+	int rt = convertStringToInt( str);
+	if (rt >= Automaton::MaxPriority)
+	{
+		throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef, str);
+	}
+	return rt;
+}
+
 static Priority convertStringToPriority( const std::string_view& str)
 {
 	Priority rt;
@@ -115,20 +126,16 @@ static Priority convertStringToPriority( const std::string_view& str)
 	if (str[0] == 'L' || str[0] == 'R')
 	{
 		Assoziativity assoz = str[0] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = (str.size() == 1) ? Priority( 0, assoz) : Priority( convertStringToInt( str.substr( 1, str.size()-1)), assoz);
+		rt = (str.size() == 1) ? Priority( 0, assoz) : Priority( convertStringToPriorityValue( str.substr( 1, str.size()-1)), assoz);
 	}
 	else if (str[str.size()-1] == 'L' || str[str.size()-1] == 'R')
 	{
 		Assoziativity assoz = str[str.size()-1] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = Priority( convertStringToInt( str.substr( 0, str.size()-1)), assoz);
+		rt = Priority( convertStringToPriorityValue( str.substr( 0, str.size()-1)), assoz);
 	}
 	else
 	{
-		rt = Priority( convertStringToInt( str));
-	}
-	if (rt.value >= Automaton::MaxPriority)
-	{
-		throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef, str);
+		rt = Priority( convertStringToPriorityValue( str));
 	}
 	return rt;
 }
-- 
2.43.0


From dac9bc37ba312f117d87acc558806f4cfece995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 38/51] fix: strings with escape sequences unknown to Lua as
 call arguments gave a compiler that could not be loaded

---
 src/automaton_parser.cpp | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index ccf839f..816ef08 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -166,6 +166,43 @@ static void checkCallName( const std::string_view& str)
 	if (!isLuaIdentifier( str.substr( pos))) throw Error( Error::UnexpectedTokenInGrammarDef, str);
 }
 
+/// \brief Check the escape sequences of a string in a call that is evaluated by Lua
+static void checkLuaString( const std::string_view& str)
+{
+	auto isHex = []( char ch) {return (ch >= '0' && ch <= '9') || ((ch|32) >= 'a' && (ch|32) <= 'f');};
+	auto isDec = []( char ch) {return ch >= '0' && ch <= '9';};
+	auto at = [&]( std::size_t pos) {return pos < str.size() ? str[ pos] : '\0';};
+
+	for (std::size_t si = str.find( '\\'); si != std::string_view::npos; si = str.find( '\\', si))
+	{
+		char ch = at( ++si);
+		bool valid = true;
+		if (isDec( ch))
+		{
+			int value = 0;
+			for (int ii=0; ii<3 && isDec( at( si)); ++ii,++si) {value = value * 10 + (str[ si] - '0');}
+			valid = (value <= 255);
+		}
+		else if (ch == 'x')
+		{
+			valid = isHex( at( si+1)) && isHex( at( si+2));
+			si += 3;
+		}
+		else if (ch == 'u')
+		{
+			std::size_t start = si += 2;
+			while (isHex( at( si))) {++si;}
+			valid = (at( start-1) == '{' && si > start && si - start <= 6 && at( si) == '}');
+		}
+		else
+		{
+			valid = (ch && 0!=std::strchr( "abfnrtvz\\", ch));
+			++si;
+		}
+		if (!valid) throw Error( Error::BadCharacterInGrammarDef, str);
+	}
+}
+
 LanguageDef mewa::parseLanguageDef( const std::string& source)
 {
 	LanguageDef rt;
@@ -461,12 +498,14 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParseCallArg)
 					{
+						checkLuaString( lexem.value());
 						call_arg = std::string( lexem.value());
 						call_argtype = Automaton::Call::StringArg;
 						state = ParseCallClose;
 					}
 					else if (state == ParseCallArgMemberValue)
 					{
+						checkLuaString( lexem.value());
 						if (lexemtype == GrammarLexer::DQSTRING)
 						{
 							call_arg.push_back( '\"');
-- 
2.43.0


From 51fd164c6c84d84dbdb61f674f953ff561fa7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:05 +0000
Subject: [PATCH 39/51] fix: grammars with nonterminals without a finite
 derivation made the generated compiler loop forever, refuse them

---
 doc/errorcodes.md        |  1 +
 doc/errorcodes.md.in     |  1 +
 src/automaton_parser.cpp | 24 ++++++++++++++++++++++++
 src/error.cpp            |  1 +
 src/error.hpp            |  1 +
 5 files changed, 28 insertions(+)

diff --git a/doc/errorcodes.md b/doc/errorcodes.md
index 14ac934..43831ef 100644
--- a/doc/errorcodes.md
+++ b/doc/errorcodes.md
@@ -88,6 +88,7 @@ A list for Linux can be found [here](https://nuetzlich.net/errno.html).
 ## Conflicts in Grammar Definition
 + **#557**   _Priority definition conflict in the grammar definition_
 + **#558**   _No accept states in the grammar definition_
++ **#559**   _Nonterminal that no sequence of lexems can be derived from in the grammar definition_
 + **#561**   _SHIFT/REDUCE conflict in the grammar definition_
 + **#562**   _REDUCE/REDUCE conflict in the grammar definition_
 + **#563**   _SHIFT/SHIFT conflict in the grammar definition_
diff --git a/doc/errorcodes.md.in b/doc/errorcodes.md.in
index f65521d..0c93306 100644
--- a/doc/errorcodes.md.in
+++ b/doc/errorcodes.md.in
@@ -88,6 +88,7 @@ A list for Linux can be found [here](https://nuetzlich.net/errno.html).
 ## Conflicts in Grammar Definition
 + **#$ERRCODE:PriorityConflictInGrammarDef**   _$ERRTEXT:PriorityConflictInGrammarDef_
 + **#$ERRCODE:NoAcceptStatesInGrammarDef**   _$ERRTEXT:NoAcceptStatesInGrammarDef_
++ **#$ERRCODE:UnproductiveNonTerminalInGrammarDef**   _$ERRTEXT:UnproductiveNonTerminalInGrammarDef_
 + **#$ERRCODE:ShiftReduceConflictInGrammarDef**   _$ERRTEXT:ShiftReduceConflictInGrammarDef_
 + **#$ERRCODE:ReduceReduceConflictInGrammarDef**   _$ERRTEXT:ReduceReduceConflictInGrammarDef_
 + **#$ERRCODE:ShiftShiftConflictInGrammarDef**   _$ERRTEXT:ShiftShiftConflictInGrammarDef_
diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 816ef08..eec35aa 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -805,6 +805,30 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 				throw Error( Error::DuplicateProductionInGrammarDef, prod.prodstring(), prod.line);
 			}
 		}
+
+		// [8] Test that every nonterminal has a finite derivation (a parser may not terminate otherwise, without any conflict in the tables):
+		std::set<int> productiveSet;
+		bool productiveSetChanged = true;
+		while (productiveSetChanged)
+		{
+			productiveSetChanged = false;
+			for (auto const& prod: rt.prodlist)
+			{
+				bool productive = true;
+				for (auto const& element : prod.right)
+				{
+					productive &= element.type() != ProductionNodeDef::NonTerminal || productiveSet.find( element.index()) != productiveSet.end();
+				}
+				if (productive && productiveSet.insert( prod.left.index()).second) productiveSetChanged = true;
+			}
+		}
+		for (auto const& prod: rt.prodlist)
+		{
+			if (prod.left.index() != 1/*isn't the start symbol*/ && productiveSet.find( prod.left.index()) == productiveSet.end())
+			{
+				throw Error( Error::UnproductiveNonTerminalInGrammarDef, prod.left.name(), prod.line);
+			}
+		}
 	}
 	catch (const Error& err)
 	{
diff --git a/src/error.cpp b/src/error.cpp
index 96ff7de..5c20d7c 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -282,6 +282,7 @@ const char* Error::code2String( int code_) noexcept
 		case EmptyGrammarDef: return "The grammar definition is empty";
 		case PriorityConflictInGrammarDef: return "Priority definition conflict in the grammar definition";
 		case NoAcceptStatesInGrammarDef: return "No accept states in the grammar definition";
+		case UnproductiveNonTerminalInGrammarDef: return "Nonterminal that no sequence of lexems can be derived from in the grammar definition";
 
 		case ShiftReduceConflictInGrammarDef: return "SHIFT/REDUCE conflict in the grammar definition";
 		case ReduceReduceConflictInGrammarDef: return "REDUCE/REDUCE conflict in the grammar definition";
diff --git a/src/error.hpp b/src/error.hpp
index f15bd0e..fa04939 100644
--- a/src/error.hpp
+++ b/src/error.hpp
@@ -105,6 +105,7 @@ public:
 		EmptyGrammarDef=556,
 		PriorityConflictInGrammarDef=557,
 		NoAcceptStatesInGrammarDef=558,
+		UnproductiveNonTerminalInGrammarDef=559,
 
 		ShiftReduceConflictInGrammarDef=561,
 		ReduceReduceConflictInGrammarDef=562,
-- 
2.43.0


From b3151912a0178767217b908f6ca9eb550360ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:18 +0000
Subject: [PATCH 40/51] fix: runs of a compiler left their output to the next
 run, a failing run left print and debug redirected and the debug file open

---
 src/lua_userdata.hpp |  5 +++++
 src/lualib_mewa.cpp  | 42 +++++++++++++++++++++++++++++-------------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index 2028c1d..71f45ea 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -85,6 +85,11 @@ struct mewa_compiler_userdata_t
 	{
 		closeFile( debugFileHandle);
 	}
+	void clearOutput() noexcept
+	{
+		outputBuffer.clear();
+		outputSectionMap.clear();
+	}
 	void destroy( lua_State* ls) noexcept
 	{
 		lua_pushnil( ls);
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 0c918b4..49f90e7 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -403,12 +403,26 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 	std::memcpy( buf, str.data(), str.size());
 	buf[ str.size()] = 0;
 }
+
+/// \brief Restore the global functions redirected during a run of the compiler
+/// \param[in] globals_index stack index of the global table, followed by the original values of "print", "print_section" and "debug"
+static void restorePrintFunctions( lua_State* ls, int globals_index)
+{
+	lua_settop( ls, globals_index+3);			// STK: ... table=_G, print, print_section, debug
+	lua_setfield( ls, globals_index, "debug");		// STK: ... table=_G, print, print_section
+	lua_setfield( ls, globals_index, "print_section");	// STK: ... table=_G, print
+	lua_setfield( ls, globals_index, "print");		// STK: ... table=_G
+	lua_settop( ls, globals_index-1);			// STK: ...
+}
+
 static int mewa_compiler_run( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:run( target, options, inputfile, [,outputfile [,dbgoutput]])";
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, 1, mewa_compiler_userdata_t::metatableName());
+	int globals_index = 0;		//... stack index of the global functions to restore, 0 if they have not been redirected yet
 	try
 	{
+		cp->clearOutput();
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 4/*minNofArgs*/, 6/*maxNofArgs*/);
 		mewa::lua::checkStack( functionName, ls, 10);
 
@@ -445,13 +459,12 @@ static int mewa_compiler_run( lua_State* ls)
 				if (!cp->debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
 			}
 		}
-		lua_getglobal( ls, "_G");		// STK: table=_G
-		lua_pushliteral( ls, "print");		// STK: table=_G, key=print
-		lua_pushliteral( ls, "print");		// STK: table=_G, key=print, key=print
-		lua_gettable( ls, -3);			// STK: table=_G, key=print, value=function
-		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug
-		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug key=debug
-		lua_gettable( ls, -5);			// STK: table=_G, key=print, value=function key=debug value=function
+		lua_getglobal( ls, "_G");			// STK: table=_G
+		int gi = lua_gettop( ls);
+		lua_getfield( ls, gi, "print");			// STK: table=_G, print
+		lua_getfield( ls, gi, "print_section");		// STK: table=_G, print, print_section
+		lua_getfield( ls, gi, "debug");			// STK: table=_G, print, print_section, debug
+		globals_index = gi;
 
 		lua_getglobal( ls, "_G");
 		lua_pushlightuserdata( ls, cp);
@@ -481,11 +494,9 @@ static int mewa_compiler_run( lua_State* ls)
 			}
 		}
 
-		// Restore old print function that has been left on the stack:
-					//STK: table=_G, key=print, value=function key=debug, value=function
-		lua_settable( ls, -5);	//STK: table=_G, key=print, value=function
-		lua_settable( ls, -3);	//STK: table=_G
-		lua_pop( ls, 1);	//STK:
+		// Restore old print functions that have been left on the stack:
+		restorePrintFunctions( ls, globals_index);	// STK:
+		globals_index = 0;
 		cp->closeOutput();
 		lua_pop( ls, 3);	// ... destroy strings on lua stack created with move_string_on_lua_stack and options
 
@@ -498,7 +509,12 @@ static int mewa_compiler_run( lua_State* ls)
 			std::cerr << "Warning: Called deprecated function typedb:get_type. This function has been renamed to typedb:this_type (issue #4)" << std::endl;
 		}
 	}
-	catch (...) { lippincottFunction( ls); }
+	catch (...)
+	{
+		if (globals_index) restorePrintFunctions( ls, globals_index);
+		cp->closeOutput();
+		lippincottFunction( ls);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 9f2863af0cf16072e82d29d8162eed32bcd9b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:18 +0000
Subject: [PATCH 41/51] fix: output of print and of print_section to the
 section Code was not kept in the order printed

---
 src/lua_userdata.hpp | 5 -----
 src/lualib_mewa.cpp  | 4 ++--
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index 71f45ea..f611f0c 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -68,8 +68,6 @@ struct mewa_compiler_userdata_t
 	mewa::Automaton automaton;
 	mewa::lua::CallTableName callTableName;
 	FILE* debugFileHandle;
-	typedef std::string OutputBuffer;
-	std::string outputBuffer;
 	typedef std::map<std::string,std::string> OutputSectionMap;
 	OutputSectionMap outputSectionMap;
 
@@ -77,7 +75,6 @@ struct mewa_compiler_userdata_t
 	{
 		debugFileHandle = nullptr;
 		new (&automaton) mewa::Automaton();
-		new (&outputBuffer) OutputBuffer();
 		new (&outputSectionMap) OutputSectionMap();
 		callTableName.init();
 	}
@@ -87,7 +84,6 @@ struct mewa_compiler_userdata_t
 	}
 	void clearOutput() noexcept
 	{
-		outputBuffer.clear();
 		outputSectionMap.clear();
 	}
 	void destroy( lua_State* ls) noexcept
@@ -97,7 +93,6 @@ struct mewa_compiler_userdata_t
 
 		closeOutput();
 		automaton.~Automaton();
-		outputBuffer.~OutputBuffer();
 		outputSectionMap.~OutputSectionMap();
 	}
 	static const char* metatableName() noexcept {return MEWA_COMPILER_METATABLE_NAME;}
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 49f90e7..8428c72 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -218,7 +218,7 @@ static int lua_print_redirected( lua_State* ls) {
 	try
 	{
 		int nargs = lua_gettop( ls);
-		append_printbuffer( ls, 1, nargs, cp->outputBuffer);
+		append_printbuffer( ls, 1, nargs, cp->outputSectionMap[ "Code"]);
 	}
 	catch (...) {lippincottFunction( ls);}
 	return 0;
@@ -478,7 +478,7 @@ static int mewa_compiler_run( lua_State* ls)
 			// Map output with target template:
 			cp->outputSectionMap[ "Source"] = filename;
 			cp->outputSectionMap[ "Triple"] = triple;
-			cp->outputSectionMap[ "Code"].append( cp->outputBuffer);
+			cp->outputSectionMap[ "Code"];	//... a section not printed to is empty
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-- 
2.43.0


From 3f88b13d9a8bf4337d2c5cff9493992e9592f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 42/51] fix: empty braces in target templates were removed,
 templates and output were cut at NUL characters, Triple of targets without
 extension read beyond the name

---
 src/fileio.cpp      |  3 ++-
 src/lualib_mewa.cpp | 14 ++++++++---
 src/strings.cpp     | 57 +++++++++++++++++++++------------------------
 3 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 75c612d..9cd7cfd 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -111,7 +111,8 @@ std::string mewa::fileBaseName( const std::string_view& fnam)
 	std::memcpy( buf, fnam.data(), nn);
 	buf[ nn] = 0;
 	char* bn = ::basename( buf);
-	std::size_t ee = std::strchr( bn, '\0')-bn;
+	nn = std::strlen( bn);
+	std::size_t ee = nn;
 	for (; ee > 0 && bn[ ee] != '.'; --ee){}
 	if (ee != 0) nn = ee;
 	return std::string( bn, nn);
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 8428c72..b3618cb 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -144,7 +144,7 @@ static int lua_print_redirected_impl( lua_State* ls, FILE* fh)
 			}
 			catch (...) {lippincottFunction( ls);}
 		}
-		if (len < std::fwrite( str, 1, len, fh))
+		if (len > std::fwrite( str, 1, len, fh))
 		{
 			int ec = std::ferror( fh);
 			mewa::Error err( (mewa::Error::Code)ec, functionName);
@@ -404,6 +404,14 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 	buf[ str.size()] = 0;
 }
 
+static void printOutput( const std::string& output, FILE* fh)
+{
+	if (output.size() != std::fwrite( output.data(), 1, output.size(), fh) || 0!=std::fflush( fh))
+	{
+		throw mewa::Error( (mewa::Error::Code) errno, "output");
+	}
+}
+
 /// \brief Restore the global functions redirected during a run of the compiler
 /// \param[in] globals_index stack index of the global table, followed by the original values of "print", "print_section" and "debug"
 static void restorePrintFunctions( lua_State* ls, int globals_index)
@@ -482,11 +490,11 @@ static int mewa_compiler_run( lua_State* ls)
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-				std::fputs( output.c_str(), ::stderr);
+				printOutput( output, ::stderr);
 			}
 			else if (outputfn == "stdout")
 			{
-				std::puts( output.c_str());
+				printOutput( output + "\n", ::stdout);
 			}
 			else
 			{
diff --git a/src/strings.cpp b/src/strings.cpp
index 72e80cb..542bc0d 100644
--- a/src/strings.cpp
+++ b/src/strings.cpp
@@ -81,46 +81,43 @@ static inline bool isAlphaNum( char ch)
 std::string mewa::template_format( const std::string_view& templatstr, char sb, char eb, const std::map<std::string,std::string>& substmap)
 {
 	std::string rt;
-	char const* ti = templatstr.data();
-	char const* ts = std::strchr( ti, sb);
-	while (ts)
+	std::size_t ti = 0;
+	std::size_t ts = templatstr.find( sb);
+	while (ts != std::string_view::npos)
 	{
-		char const* keystart = ts+1;
-		char const* te = std::strchr( keystart, eb);
-		if (te)
+		std::size_t keystart = ts+1;
+		std::size_t te = templatstr.find( eb, keystart);
+		if (te == std::string_view::npos) break;
+
+		auto si = substmap.find( std::string( templatstr.substr( keystart, te-keystart)));
+		if (si != substmap.end())
+		{
+			rt.append( templatstr.substr( ti, ts-ti));
+			rt.append( si->second);
+			ti = te + 1;
+			ts = templatstr.find( sb, ti);
+		}
+		else
 		{
-			auto si = substmap.find( std::string( keystart, te-keystart));
-			if (si != substmap.end())
+			std::size_t ki = keystart;
+			if (te-ki >= 2 && isAlpha( templatstr[ ki]))
+			{
+				for (++ki; ki != te && isAlphaNum( templatstr[ ki]); ++ki){}
+			}
+			if (ki == te && ki != keystart)
 			{
-				rt.append( ti, ts-ti);
-				rt.append( si->second);
+				rt.append( templatstr.substr( ti, ts-ti));
 				ti = te + 1;
-				if (!(ts = std::strchr( ti, sb))) break;
+				ts = templatstr.find( sb, ti);
+				// ... an identifier is mapped to an empty string if not found
 			}
 			else
 			{
-				char const* ki = keystart;
-				char const* ke = te;
-				if (ke-ki >= 2 && isAlpha(*ki))
-				{
-					for (++ki; ki != ke && isAlphaNum(*ki); ++ki){}
-				}
-				if (ki == ke)
-				{
-					rt.append( ti, ts-ti);
-					ti = te + 1;
-					if (!(ts = std::strchr( ti, sb))) break;
-					// ... an identifier is mapped to an empty string if not found
-				}
-				else
-				{
-					if (!(ts = std::strchr( keystart, sb))) break;
-				}
+				ts = templatstr.find( sb, keystart);
 			}
 		}
-		else break;
 	}
-	rt.append( ti);
+	rt.append( templatstr.substr( ti));
 	return rt;
 }
 
-- 
2.43.0


From 195d0386cea7ec3accfdea6ab57d59198b55dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 43/51] fix: errors raised in functions of the type system were
 cut at 511 bytes, lost or changed when resembling errors of mewa

---
 src/error.cpp            | 11 ++++-------
 src/error.hpp            |  4 ++--
 src/lua_run_compiler.cpp | 27 ++++++---------------------
 3 files changed, 12 insertions(+), 30 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index 5c20d7c..b6c3577 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -93,7 +93,7 @@ Error Error::parseError( const char* errstr) noexcept
 				param_ = errstr;
 				state = StateEnd;
 			}
-			else if (0==std::memcmp( msgstart, code2String( code_), ei-msgstart))
+			else if (std::string_view( msgstart, ei-msgstart) == code2String( code_))
 			{
 				++ei;
 				skipSpaces( ei);
@@ -170,7 +170,8 @@ int Error::parseInteger( char const*& si) noexcept
 	int rt = 0;
 	for (; *si >= '0' && *si <= '9'; ++si)
 	{
-		rt = (rt * 10) + (*si - '0');
+		int digit = *si - '0';
+		rt = rt > (std::numeric_limits<int>::max() - digit) / 10 ? std::numeric_limits<int>::max() : (rt * 10) + digit;
 	}
 	return rt;
 }
@@ -321,11 +322,7 @@ const char* Error::code2String( int code_) noexcept
 
 std::string Error::map2string( Code code_, const std::string_view& param_, const Location& location_)
 {
-	char parambuf[ 512];
-	std::size_t len = param_.size() >= sizeof(parambuf) ? (sizeof(parambuf)-1):param_.size();
-	std::memcpy( parambuf, param_.data(), len);
-	parambuf[ len] = 0;
-	return map2string( code_, parambuf, location_);
+	return map2string( code_, std::string( param_).c_str(), location_);
 }
 
 std::string Error::map2string( Code code_, const char* param_, const Location& location_)
diff --git a/src/error.hpp b/src/error.hpp
index fa04939..a122472 100644
--- a/src/error.hpp
+++ b/src/error.hpp
@@ -172,12 +172,12 @@ public:
 	Error( Code code_, const char* param_, const Location& location_ = Location())
 		:std::runtime_error(map2string(code_,param_,location_)),m_code(code_),m_location(location_){}
 	Error( const Error& o)
-		:std::runtime_error(map2string(o.code(),o.arg(),o.location())),m_code(o.m_code),m_location(o.location()){}
+		:std::runtime_error(o),m_code(o.m_code),m_location(o.location()){}
 	Error( const Error& o, const Location& location_)
 		:std::runtime_error(map2string(o.code(),o.arg(),location_)),m_code(o.m_code),m_location(location_){}
 
 	Code code() const noexcept			{return m_code;}
-	const char* arg() const noexcept		{char const* rt = std::strstr( what(), ": "); return rt?(rt+2):rt;}
+	const char* arg() const noexcept		{std::size_t pos = map2string( m_code, "", m_location).size(); return what()[ pos] ? (what() + pos + 2) : nullptr;}
 	const Location& location() const noexcept	{return m_location;}
 
 	const char* what() const noexcept override
diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 0b41c12..266ac33 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -295,15 +295,12 @@ static mewa::Error::Code luaErrorCode2ErrorCode( int rc)
 
 static int lua_pcall_errorhandler( lua_State* ls)
 {
-	int line = 0;
-	char msgbuf[ 512];
 	int ridx = 1;
 	lua_Debug ar;
 
 	int nn = lua_gettop( ls);
 	char const* msgstr = (nn >= 1) ? lua_tostring( ls, 1) : "";
 	if (!msgstr) msgstr = "";
-	std::size_t msglen;
 	if (0!=std::strstr( msgstr, ".lua:"))
 	{
 		lua_pushstring( ls, msgstr);
@@ -314,22 +311,9 @@ static int lua_pcall_errorhandler( lua_State* ls)
 		lua_getinfo( ls, "S", &ar);
 		if (0 == std::strcmp( ar.short_src, "[C]")) break;
 
-		if (line == 0 && ar.linedefined >= 1)
+		if (ar.linedefined >= 1)
 		{
-			line = ar.linedefined;
-			if (line)
-			{
-				msglen = std::snprintf( msgbuf, sizeof(msgbuf), "%s:%d: %s", ar.short_src, line, msgstr);
-			}
-			else
-			{
-				msglen = std::snprintf( msgbuf, sizeof(msgbuf), "%s: %s", ar.short_src, msgstr);
-			}
-			if (msglen > sizeof(msgbuf))
-			{
-				msgbuf[ msglen = sizeof(msgbuf)-1] = 0;
-			}
-			lua_pushlstring( ls, msgbuf, msglen);
+			lua_pushfstring( ls, "%s:%d: %s", ar.short_src, ar.linedefined, msgstr);
 			return 1;
 		}
 		++ridx;
@@ -401,14 +385,15 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 		if (rc)
 		{
 			const char* msg = lua_tostring( ls, -1);
+			if (!msg) msg = "";
 			mewa::Error err = mewa::Error::parseError( msg);
-			if (err.code() == mewa::Error::RuntimeException)
+			if (0==std::strcmp( err.what(), msg) && *msg)
 			{
-				throw mewa::Error( luaErrorCode2ErrorCode( rc), msg ? msg : "");
+				throw err; //... error of mewa passed on as it is
 			}
 			else
 			{
-				throw err;
+				throw mewa::Error( luaErrorCode2ErrorCode( rc), msg);
 			}
 		}
 		else if (dbgout && !lua_isnil( ls, -1))
-- 
2.43.0


From 7bb2d753fc548294ad49332ef8364de8a9bc71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 44/51] fix: a run of a compiler called by its own type system
 functions lost the output of the outer run

---
 src/lua_userdata.hpp | 23 +++++++++++++++--------
 src/lualib_mewa.cpp  | 26 +++++++++++++++-----------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index f611f0c..8376cce 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -67,24 +67,31 @@ struct mewa_compiler_userdata_t
 {
 	mewa::Automaton automaton;
 	mewa::lua::CallTableName callTableName;
-	FILE* debugFileHandle;
 	typedef std::map<std::string,std::string> OutputSectionMap;
-	OutputSectionMap outputSectionMap;
+	struct Output
+	{
+		FILE* debugFileHandle;
+		OutputSectionMap sectionMap;
+
+		Output() :debugFileHandle(nullptr),sectionMap(){}
+		void clear() noexcept {debugFileHandle = nullptr; sectionMap.clear();}
+	};
+	Output output;		//< output of the run currently active
 
 	void init()
 	{
-		debugFileHandle = nullptr;
 		new (&automaton) mewa::Automaton();
-		new (&outputSectionMap) OutputSectionMap();
+		new (&output) Output();
 		callTableName.init();
 	}
 	void closeOutput() noexcept
 	{
-		closeFile( debugFileHandle);
+		closeFile( output.debugFileHandle);
 	}
-	void clearOutput() noexcept
+	void swapOutput( Output& o) noexcept
 	{
-		outputSectionMap.clear();
+		std::swap( output.debugFileHandle, o.debugFileHandle);
+		output.sectionMap.swap( o.sectionMap);
 	}
 	void destroy( lua_State* ls) noexcept
 	{
@@ -93,7 +100,7 @@ struct mewa_compiler_userdata_t
 
 		closeOutput();
 		automaton.~Automaton();
-		outputSectionMap.~OutputSectionMap();
+		output.~Output();
 	}
 	static const char* metatableName() noexcept {return MEWA_COMPILER_METATABLE_NAME;}
 
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index b3618cb..1463f52 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -201,7 +201,7 @@ static int lua_print_section_redirected( lua_State* ls)
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, std::numeric_limits<int>::max()/*maxNofArgs*/);
 		auto section = (nargs >= 1 && !lua_isnil(ls,1)) ? std::string(mewa::lua::getArgumentAsString( functionName, ls, 1)) : std::string();
-		append_printbuffer( ls, 2, nargs, cp->outputSectionMap[ section]);
+		append_printbuffer( ls, 2, nargs, cp->output.sectionMap[ section]);
 	}
 	catch (...) {lippincottFunction( ls);}
 	return 0;
@@ -218,7 +218,7 @@ static int lua_print_redirected( lua_State* ls) {
 	try
 	{
 		int nargs = lua_gettop( ls);
-		append_printbuffer( ls, 1, nargs, cp->outputSectionMap[ "Code"]);
+		append_printbuffer( ls, 1, nargs, cp->output.sectionMap[ "Code"]);
 	}
 	catch (...) {lippincottFunction( ls);}
 	return 0;
@@ -232,7 +232,7 @@ static int lua_debug_redirected( lua_State* ls) {
 		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
 		luaL_error( ls, "%s", err.what());
 	}
-	return lua_print_redirected_impl( ls, cp->debugFileHandle ? cp->debugFileHandle : ::stderr);
+	return lua_print_redirected_impl( ls, cp->output.debugFileHandle ? cp->output.debugFileHandle : ::stderr);
 }
 
 static const struct luaL_Reg g_printlib [] = {
@@ -428,9 +428,10 @@ static int mewa_compiler_run( lua_State* ls)
 	[[maybe_unused]] static const char* functionName = "compiler:run( target, options, inputfile, [,outputfile [,dbgoutput]])";
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, 1, mewa_compiler_userdata_t::metatableName());
 	int globals_index = 0;		//... stack index of the global functions to restore, 0 if they have not been redirected yet
+	mewa_compiler_userdata_t::Output outerOutput;
+	cp->swapOutput( outerOutput);	//... output of the outer run, if called by a function of the type system of the same compiler
 	try
 	{
-		cp->clearOutput();
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 4/*minNofArgs*/, 6/*maxNofArgs*/);
 		mewa::lua::checkStack( functionName, ls, 10);
 
@@ -463,8 +464,8 @@ static int mewa_compiler_run( lua_State* ls)
 			if (nargs >= 6 && !lua_isnil( ls, 6))
 			{
 				std::string_view debugFileName = mewa::lua::getArgumentAsString( functionName, ls, 6);
-				cp->debugFileHandle = mewa_compiler_userdata_t::openFile( debugFileName.data());
-				if (!cp->debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
+				cp->output.debugFileHandle = mewa_compiler_userdata_t::openFile( debugFileName.data());
+				if (!cp->output.debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
 			}
 		}
 		lua_getglobal( ls, "_G");			// STK: table=_G
@@ -479,15 +480,15 @@ static int mewa_compiler_run( lua_State* ls)
 		luaL_setfuncs( ls, g_printlib, 1/*number of closure elements*/);
 		lua_pop( ls, 1);
 
-		mewa::luaRunCompiler( ls, cp->automaton, options_index, sourceptr, cp->callTableName.buf, cp->debugFileHandle);
+		mewa::luaRunCompiler( ls, cp->automaton, options_index, sourceptr, cp->callTableName.buf, cp->output.debugFileHandle);
 		{
 			std::string triple = mewa::fileBaseName( targetfn);
 
 			// Map output with target template:
-			cp->outputSectionMap[ "Source"] = filename;
-			cp->outputSectionMap[ "Triple"] = triple;
-			cp->outputSectionMap[ "Code"];	//... a section not printed to is empty
-			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
+			cp->output.sectionMap[ "Source"] = filename;
+			cp->output.sectionMap[ "Triple"] = triple;
+			cp->output.sectionMap[ "Code"];	//... a section not printed to is empty
+			std::string output = mewa::template_format( targetptr, '{', '}', cp->output.sectionMap);
 			if (outputfn == "stderr")
 			{
 				printOutput( output, ::stderr);
@@ -506,6 +507,7 @@ static int mewa_compiler_run( lua_State* ls)
 		restorePrintFunctions( ls, globals_index);	// STK:
 		globals_index = 0;
 		cp->closeOutput();
+		cp->swapOutput( outerOutput);
 		lua_pop( ls, 3);	// ... destroy strings on lua stack created with move_string_on_lua_stack and options
 
 		if (g_called_deprecated_get_types)
@@ -521,6 +523,8 @@ static int mewa_compiler_run( lua_State* ls)
 	{
 		if (globals_index) restorePrintFunctions( ls, globals_index);
 		cp->closeOutput();
+		cp->swapOutput( outerOutput);
+		outerOutput.clear(); //... lua_error does not call the destructor
 		lippincottFunction( ls);
 	}
 	return 0;
-- 
2.43.0


From 6da98ba28794a87ae5f21007bad29ab6e6e54780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:37 +0000
Subject: [PATCH 45/51] fix: error codes not defined raised by functions of the
 type system were stored in an enum not able to hold them

---
 src/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.hpp b/src/error.hpp
index a122472..831a669 100644
--- a/src/error.hpp
+++ b/src/error.hpp
@@ -28,7 +28,7 @@ class Error
 	:public std::runtime_error
 {
 public:
-	enum Code {
+	enum Code :int {
 		Ok=0,
 		MemoryAllocationError=400,
 		InternalBufferOverflow=401,
-- 
2.43.0


From 938277569a91d62ad66de2eba07b9f7aa6b8f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:56 +0000
Subject: [PATCH 46/51] fix: an error raised in a function of the library
 leaked the exception, lua_error was called in the exception handler

---
 src/lualib_mewa.cpp | 179 +++++++++++++++++++++-----------------------
 1 file changed, 87 insertions(+), 92 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 1463f52..05d2050 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -60,9 +60,25 @@ static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 	return mewa::Error::Location( ar.short_src, ar.linedefined);
 }
 
+/// \brief Thrown when the message of an error has been pushed to the Lua stack
+/// \note lua_error does a longjmp. Called in an exception handler it would never release the exception caught. Called in a function with objects alive it would not call their destructors.
+struct LuaErrorPushed {};
+
+/// \brief Wrapper of all functions exported to Lua that might call lippincottFunction, raises the Lua error after all C++ objects have been released
+template <lua_CFunction FUNC>
+static int luaFunction( lua_State* ls)
+{
+	try
+	{
+		return FUNC( ls);
+	}
+	catch (const LuaErrorPushed&) {}
+	return lua_error( ls);
+}
+
 /// \note Got this idea from Jason Turner C++ Weekly Ep. 91 "Using Lippincott Functions"
 ///		See also The C++ Standard Library2ndEd. by Nicolai M. Josuttis page 50
-static void lippincottFunction( lua_State* ls)
+[[noreturn]] static void lippincottFunction( lua_State* ls)
 {
 	try
 	{
@@ -79,26 +95,23 @@ static void lippincottFunction( lua_State* ls)
 			mewa::Error errWithLocation( err, getLuaScriptErrorLocation( ls));
 			lua_pushstring( ls, errWithLocation.what());
 		}
-		lua_error( ls);
 	}
 	catch (const std::runtime_error& err)
 	{
 		mewa::Error errWithLocation( mewa::Error::RuntimeException, err.what(), getLuaScriptErrorLocation( ls));
 		lua_pushstring( ls, errWithLocation.what());
-		lua_error( ls);
 	}
 	catch (const std::bad_alloc&)
 	{
 		mewa::Error errWithLocation( mewa::Error::MemoryAllocationError, getLuaScriptErrorLocation( ls));
 		lua_pushstring( ls, errWithLocation.what());
-		lua_error( ls);
 	}
 	catch (...)
 	{
 		mewa::Error errWithLocation( mewa::Error::UnexpectedException, getLuaScriptErrorLocation( ls));
 		lua_pushstring( ls, errWithLocation.what());
-		lua_error( ls);
 	}
+	throw LuaErrorPushed();
 }
 
 static int destroy_memblock( lua_State* ls)
@@ -116,9 +129,8 @@ static std::string_view move_string_on_lua_stack( lua_State* ls, std::string&& s
 	return obj->obj();
 }
 
-static int lua_print_redirected_impl( lua_State* ls, FILE* fh)
+static void print_redirected_impl( const char* functionName, lua_State* ls, FILE* fh)
 {
-	[[maybe_unused]] static const char* functionName = "mewa print redirected";
 	int nargs = lua_gettop( ls);
 	for (int li=1; li <= nargs; ++li)
 	{
@@ -136,30 +148,21 @@ static int lua_print_redirected_impl( lua_State* ls, FILE* fh)
 		}
 		else
 		{
-			try
-			{
-				content = mewa::luaToString( ls, li, false/*formatted*/, 0/*no maximum depth*/);
-				len = content.size();
-				str = content.c_str();
-			}
-			catch (...) {lippincottFunction( ls);}
+			content = mewa::luaToString( ls, li, false/*formatted*/, 0/*no maximum depth*/);
+			len = content.size();
+			str = content.c_str();
 		}
 		if (len > std::fwrite( str, 1, len, fh))
 		{
-			int ec = std::ferror( fh);
-			mewa::Error err( (mewa::Error::Code)ec, functionName);
-			luaL_error( ls, "%s", err.what());
+			throw mewa::Error( (mewa::Error::Code)std::ferror( fh), functionName);
 		}
 	}
 	// Print eoln:
 	if (1 > std::fwrite( "\n", 1, 1, fh))
 	{
-		int ec = std::ferror( fh);
-		mewa::Error err( (mewa::Error::Code)ec, functionName);
-		luaL_error( ls, "%s", err.what());
+		throw mewa::Error( (mewa::Error::Code)std::ferror( fh), functionName);
 	}
 	std::fflush( fh);
-	return 0;
 }
 
 static void append_printbuffer( lua_State* ls, int ai, int ae, std::string& buffer)
@@ -192,13 +195,9 @@ static int lua_print_section_redirected( lua_State* ls)
 {
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
 	[[maybe_unused]] static const char* functionName = "mewa print section redirected";
-	if (!cp)
-	{
-		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
-		luaL_error( ls, "%s", err.what());
-	}
 	try
 	{
+		if (!cp) throw mewa::Error( mewa::Error::LuaInvalidUserData, functionName);
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, std::numeric_limits<int>::max()/*maxNofArgs*/);
 		auto section = (nargs >= 1 && !lua_isnil(ls,1)) ? std::string(mewa::lua::getArgumentAsString( functionName, ls, 1)) : std::string();
 		append_printbuffer( ls, 2, nargs, cp->output.sectionMap[ section]);
@@ -210,13 +209,9 @@ static int lua_print_section_redirected( lua_State* ls)
 static int lua_print_redirected( lua_State* ls) {
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
 	[[maybe_unused]] static const char* functionName = "mewa print redirected";
-	if (!cp)
-	{
-		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
-		luaL_error( ls, "%s", err.what());
-	}
 	try
 	{
+		if (!cp) throw mewa::Error( mewa::Error::LuaInvalidUserData, functionName);
 		int nargs = lua_gettop( ls);
 		append_printbuffer( ls, 1, nargs, cp->output.sectionMap[ "Code"]);
 	}
@@ -227,18 +222,19 @@ static int lua_print_redirected( lua_State* ls) {
 static int lua_debug_redirected( lua_State* ls) {
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
 	[[maybe_unused]] static const char* functionName = "mewa print redirected";
-	if (!cp)
+	try
 	{
-		mewa::Error err( mewa::Error::LuaInvalidUserData, functionName);
-		luaL_error( ls, "%s", err.what());
+		if (!cp) throw mewa::Error( mewa::Error::LuaInvalidUserData, functionName);
+		print_redirected_impl( functionName, ls, cp->output.debugFileHandle ? cp->output.debugFileHandle : ::stderr);
 	}
-	return lua_print_redirected_impl( ls, cp->output.debugFileHandle ? cp->output.debugFileHandle : ::stderr);
+	catch (...) {lippincottFunction( ls);}
+	return 0;
 }
 
 static const struct luaL_Reg g_printlib [] = {
-	{"print_section", lua_print_section_redirected},
-	{"print", lua_print_redirected},
-	{"debug", lua_debug_redirected},
+	{"print_section", luaFunction<lua_print_section_redirected>},
+	{"print", luaFunction<lua_print_redirected>},
+	{"debug", luaFunction<lua_debug_redirected>},
 	{nullptr, nullptr} /* end of array */
 };
 
@@ -524,7 +520,6 @@ static int mewa_compiler_run( lua_State* ls)
 		if (globals_index) restorePrintFunctions( ls, globals_index);
 		cp->closeOutput();
 		cp->swapOutput( outerOutput);
-		outerOutput.clear(); //... lua_error does not call the destructor
 		lippincottFunction( ls);
 	}
 	return 0;
@@ -1214,7 +1209,7 @@ struct LuaTreeMetaMethods
 				// ... No children, return empty list
 				lua_pushvalue( ls, 1);
 				lua_pushinteger( ls, 0);
-				lua_pushcclosure( ls, &chld_iter, 2);
+				lua_pushcclosure( ls, &luaFunction<chld_iter>, 2);
 			}
 			else
 			{
@@ -1225,7 +1220,7 @@ struct LuaTreeMetaMethods
 				lua_setmetatable( ls, -2);
 
 				lua_pushinteger( ls, chld);
-				lua_pushcclosure( ls, &chld_iter, 2);
+				lua_pushcclosure( ls, &luaFunction<chld_iter>, 2);
 			}
 		}
 		catch (...) { lippincottFunction( ls); }
@@ -1258,7 +1253,7 @@ struct LuaTreeMetaMethods
 
 			lua_pushvalue( ls, 1);		//... userdata
 			lua_pushnumber( ls, 0);		//... list iterator index on first element of array
-			lua_pushcclosure( ls, &tree_iter<typename UD::TreeType>, 2);
+			lua_pushcclosure( ls, &luaFunction<tree_iter<typename UD::TreeType>>, 2);
 		}
 		catch (...) { lippincottFunction( ls); }
 		return 1;
@@ -1295,76 +1290,76 @@ static void create_memblock_control_class( lua_State* ls)
 }
 
 static const struct luaL_Reg mewa_compiler_methods[] = {
-	{ "__gc",		mewa_destroy_compiler },
-	{ "__tostring",		mewa_compiler_tostring },
-	{ "run",		mewa_compiler_run },
+	{ "__gc",		luaFunction<mewa_destroy_compiler> },
+	{ "__tostring",		luaFunction<mewa_compiler_tostring> },
+	{ "run",		luaFunction<mewa_compiler_run> },
 	{ nullptr,		nullptr }
 };
 
 static const struct luaL_Reg mewa_typedb_methods[] = {
-	{ "__gc",		mewa_destroy_typedb },
-	{ "scope",		mewa_typedb_scope },
-	{ "step",		mewa_typedb_step },
-	{ "this_instance",	mewa_typedb_this_instance },
-	{ "get_instance",	mewa_typedb_get_instance },
-	{ "set_instance",	mewa_typedb_set_instance },
-	{ "def_type",		mewa_typedb_def_type },
-	{ "def_type_as",	mewa_typedb_def_type_as },
-	{ "this_type",		mewa_typedb_this_type },
-	{ "this_types",		mewa_typedb_this_types },
-	{ "get_type",		mewa_typedb_get_type },
-	{ "get_types",		mewa_typedb_get_types },
-	{ "def_reduction",	mewa_typedb_def_reduction },
-	{ "reduction_tagmask",	mewa_typedb_reduction_tagmask },
-	{ "derive_type",	mewa_typedb_derive_type },
-	{ "resolve_type",	mewa_typedb_resolve_type },
-	{ "type_name",		mewa_typedb_type_name },
-	{ "type_string",	mewa_typedb_type_string },
-	{ "type_context",	mewa_typedb_type_context },
-	{ "type_parameters",	mewa_typedb_type_parameters },
-	{ "type_nof_parameters",mewa_typedb_type_nof_parameters },
-	{ "type_constructor",	mewa_typedb_type_constructor },
-	{ "type_scope",		mewa_typedb_type_scope },
-	{ "get_reduction",	mewa_typedb_get_reduction },
-	{ "get_reductions",	mewa_typedb_get_reductions },
-	{ "instance_tree",	LuaTreeMetaMethods<mewa_objtree_userdata_t>::create },
-	{ "type_tree",		LuaTreeMetaMethods<mewa_typetree_userdata_t>::create },
-	{ "reduction_tree",	LuaTreeMetaMethods<mewa_redutree_userdata_t>::create },
+	{ "__gc",		luaFunction<mewa_destroy_typedb> },
+	{ "scope",		luaFunction<mewa_typedb_scope> },
+	{ "step",		luaFunction<mewa_typedb_step> },
+	{ "this_instance",	luaFunction<mewa_typedb_this_instance> },
+	{ "get_instance",	luaFunction<mewa_typedb_get_instance> },
+	{ "set_instance",	luaFunction<mewa_typedb_set_instance> },
+	{ "def_type",		luaFunction<mewa_typedb_def_type> },
+	{ "def_type_as",	luaFunction<mewa_typedb_def_type_as> },
+	{ "this_type",		luaFunction<mewa_typedb_this_type> },
+	{ "this_types",		luaFunction<mewa_typedb_this_types> },
+	{ "get_type",		luaFunction<mewa_typedb_get_type> },
+	{ "get_types",		luaFunction<mewa_typedb_get_types> },
+	{ "def_reduction",	luaFunction<mewa_typedb_def_reduction> },
+	{ "reduction_tagmask",	luaFunction<mewa_typedb_reduction_tagmask> },
+	{ "derive_type",	luaFunction<mewa_typedb_derive_type> },
+	{ "resolve_type",	luaFunction<mewa_typedb_resolve_type> },
+	{ "type_name",		luaFunction<mewa_typedb_type_name> },
+	{ "type_string",	luaFunction<mewa_typedb_type_string> },
+	{ "type_context",	luaFunction<mewa_typedb_type_context> },
+	{ "type_parameters",	luaFunction<mewa_typedb_type_parameters> },
+	{ "type_nof_parameters",luaFunction<mewa_typedb_type_nof_parameters> },
+	{ "type_constructor",	luaFunction<mewa_typedb_type_constructor> },
+	{ "type_scope",		luaFunction<mewa_typedb_type_scope> },
+	{ "get_reduction",	luaFunction<mewa_typedb_get_reduction> },
+	{ "get_reductions",	luaFunction<mewa_typedb_get_reductions> },
+	{ "instance_tree",	luaFunction<LuaTreeMetaMethods<mewa_objtree_userdata_t>::create> },
+	{ "type_tree",		luaFunction<LuaTreeMetaMethods<mewa_typetree_userdata_t>::create> },
+	{ "reduction_tree",	luaFunction<LuaTreeMetaMethods<mewa_redutree_userdata_t>::create> },
 	{ nullptr,		nullptr }
 };
 
 static const struct luaL_Reg mewa_objtree_methods[] = {
-	{ "__gc",		LuaTreeMetaMethods<mewa_objtree_userdata_t>::gc },
-	{ "chld",		LuaTreeMetaMethods<mewa_objtree_userdata_t>::chld },
-	{ "scope",		LuaTreeMetaMethods<mewa_objtree_userdata_t>::scope },
-	{ "instance",		mewa_objtree_instance },
+	{ "__gc",		luaFunction<LuaTreeMetaMethods<mewa_objtree_userdata_t>::gc> },
+	{ "chld",		luaFunction<LuaTreeMetaMethods<mewa_objtree_userdata_t>::chld> },
+	{ "scope",		luaFunction<LuaTreeMetaMethods<mewa_objtree_userdata_t>::scope> },
+	{ "instance",		luaFunction<mewa_objtree_instance> },
 	{ nullptr,		nullptr }
 };
 
 static const struct luaL_Reg mewa_typetree_methods[] = {
-	{ "__gc",		LuaTreeMetaMethods<mewa_typetree_userdata_t>::gc },
-	{ "chld",		LuaTreeMetaMethods<mewa_typetree_userdata_t>::chld },
-	{ "scope",		LuaTreeMetaMethods<mewa_typetree_userdata_t>::scope },
-	{ "list",		LuaTreeMetaMethods<mewa_typetree_userdata_t>::list },
+	{ "__gc",		luaFunction<LuaTreeMetaMethods<mewa_typetree_userdata_t>::gc> },
+	{ "chld",		luaFunction<LuaTreeMetaMethods<mewa_typetree_userdata_t>::chld> },
+	{ "scope",		luaFunction<LuaTreeMetaMethods<mewa_typetree_userdata_t>::scope> },
+	{ "list",		luaFunction<LuaTreeMetaMethods<mewa_typetree_userdata_t>::list> },
 	{ nullptr,		nullptr }
 };
 
 static const struct luaL_Reg mewa_redutree_methods[] = {
-	{ "__gc",		LuaTreeMetaMethods<mewa_redutree_userdata_t>::gc },
-	{ "chld",		LuaTreeMetaMethods<mewa_redutree_userdata_t>::chld },
-	{ "scope",		LuaTreeMetaMethods<mewa_redutree_userdata_t>::scope },
-	{ "list",		LuaTreeMetaMethods<mewa_redutree_userdata_t>::list },
+	{ "__gc",		luaFunction<LuaTreeMetaMethods<mewa_redutree_userdata_t>::gc> },
+	{ "chld",		luaFunction<LuaTreeMetaMethods<mewa_redutree_userdata_t>::chld> },
+	{ "scope",		luaFunction<LuaTreeMetaMethods<mewa_redutree_userdata_t>::scope> },
+	{ "list",		luaFunction<LuaTreeMetaMethods<mewa_redutree_userdata_t>::list> },
 	{ nullptr,		nullptr }
 };
 
 static const struct luaL_Reg mewa_functions[] = {
-	{ "compiler",		mewa_new_compiler },
-	{ "typedb",		mewa_new_typedb },
-	{ "tostring",		mewa_tostring },
-	{ "version",		mewa_version },
-	{ "llvm_float_tohex",	mewa_llvm_float_tohex },
-	{ "llvm_double_tohex",	mewa_llvm_double_tohex },
-	{ "stacktrace",		mewa_stacktrace },
+	{ "compiler",		luaFunction<mewa_new_compiler> },
+	{ "typedb",		luaFunction<mewa_new_typedb> },
+	{ "tostring",		luaFunction<mewa_tostring> },
+	{ "version",		luaFunction<mewa_version> },
+	{ "llvm_float_tohex",	luaFunction<mewa_llvm_float_tohex> },
+	{ "llvm_double_tohex",	luaFunction<mewa_llvm_double_tohex> },
+	{ "stacktrace",		luaFunction<mewa_stacktrace> },
 	{ nullptr,  		nullptr }
 };
 
-- 
2.43.0


From ccf75cbe61b108b89c0dee7cb1b80e9303cf10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:56 +0000
Subject: [PATCH 47/51] fix: objects and constructors passed to a typedb were
 never released, they are now owned by the typedb and its trees

---
 src/lua_5_1.hpp       |  3 +++
 src/lua_parameter.cpp | 51 +++++++++++++++++++--------------------
 src/lua_parameter.hpp | 14 +++++------
 src/lualib_mewa.cpp   | 56 +++++++++++++++++++++++++++++--------------
 4 files changed, 73 insertions(+), 51 deletions(-)

diff --git a/src/lua_5_1.hpp b/src/lua_5_1.hpp
index 0fa5516..eacb19a 100644
--- a/src/lua_5_1.hpp
+++ b/src/lua_5_1.hpp
@@ -30,6 +30,9 @@ static void luaL_setfuncs (lua_State *L, const luaL_Reg *l, int nup) {
 #define luaL_newlibtable(L,l)	lua_createtable(L, 0, sizeof(l)/sizeof((l)[0]) - 1)
 #define luaL_newlib(L, l) 	(luaL_newlibtable(L,l), luaL_setfuncs(L,l,0))
 
+#define lua_setuservalue(L,i)	lua_setfenv(L,i)
+#define lua_getuservalue(L,i)	lua_getfenv(L,i)
+
 #endif
 
 
diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 2c6eb77..57ad549 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -240,14 +240,14 @@ mewa::TagMask mewa::lua::getArgumentAsTagMask( const char* functionName, lua_Sta
 	return mewa::TagMask( bs);
 }
 
-int mewa::lua::getArgumentAsConstructor( const char* functionName, lua_State* ls, int li)
+int mewa::lua::getArgumentAsConstructor( const char* functionName, lua_State* ls, int li, int objTabIndex)
 {
 	if (lua_isnil( ls, li)) return 0;
 	lua_pushvalue( ls, li);
-	return luaL_ref( ls, LUA_REGISTRYINDEX);
+	return luaL_ref( ls, objTabIndex);
 }
 
-static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair( const char* functionName, lua_State* ls, int li)
+static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair( const char* functionName, lua_State* ls, int li, int objTabIndex)
 {
 	if (lua_type( ls, li) == LUA_TNUMBER)
 	{
@@ -277,7 +277,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				else if (kidx == 2)
 				{
 					lua_pushvalue( ls, -1);
-					constructor = luaL_ref( ls, LUA_REGISTRYINDEX);
+					constructor = luaL_ref( ls, objTabIndex);
 				}
 				else
 				{
@@ -295,7 +295,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				else if (len == 11 && 0==std::memcmp( str, "constructor", len))
 				{
 					lua_pushvalue( ls, -1);
-					constructor = luaL_ref( ls, LUA_REGISTRYINDEX);
+					constructor = luaL_ref( ls, objTabIndex);
 				}
 			}
 			else
@@ -314,7 +314,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 }
 
 std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
-	mewa::lua::getArgumentAsTypeConstructorPairList( const char* functionName, lua_State* ls, int li, std::pmr::memory_resource* memrsc)
+	mewa::lua::getArgumentAsTypeConstructorPairList( const char* functionName, lua_State* ls, int li, int objTabIndex, std::pmr::memory_resource* memrsc)
 {
 	std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair> rt( memrsc);
 	if (lua_isnil( ls, li)) return rt;
@@ -336,7 +336,7 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 			{
 				rt.resize( index+1, mewa::TypeDatabase::TypeConstructorPair( -1, 0));
 			}
-			rt[ index] = getArgumentAsTypeConstructorPair( functionName, ls, -1);		//STK: [PARAMTAB] [KEY] [VAL]
+			rt[ index] = getArgumentAsTypeConstructorPair( functionName, ls, -1, objTabIndex);		//STK: [PARAMTAB] [KEY] [VAL]
 		}
 		else
 		{
@@ -486,7 +486,7 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 	return rt;
 }
 
-static inline void pushTypeConstructorPair( lua_State* ls, int type, int constructor)
+static inline void pushTypeConstructorPair( lua_State* ls, int objTabIndex, int type, int constructor)
 {
 	lua_createtable( ls, 0/*narr*/, 2/*nrec*/);	// STK: [TAB]
 	lua_pushliteral( ls, "type");			// STK: [TAB] "type"
@@ -496,15 +496,14 @@ static inline void pushTypeConstructorPair( lua_State* ls, int type, int constru
 	if (constructor > 0)
 	{
 		lua_pushliteral( ls, "constructor");			// STK: [TAB] "constructor"
-		lua_rawgeti( ls, LUA_REGISTRYINDEX, constructor);	// STK: [TAB] "constructor" [CONSTRUCTOR]
+		lua_rawgeti( ls, objTabIndex, constructor);	// STK: [TAB] "constructor" [CONSTRUCTOR]
 		lua_rawset( ls, -3);					// STK: [TAB]
 	}
 }
 
-/// \note Assume STK: [OBJTAB] [REDUTAB]
-static inline void pushTypeConstructorWeightTuple( lua_State* ls, int type, int constructor, float weight, bool countFlag)
+static inline void pushTypeConstructorWeightTuple( lua_State* ls, int objTabIndex, int type, int constructor, float weight, bool countFlag)
 {
-	pushTypeConstructorPair( ls, type, constructor);
+	pushTypeConstructorPair( ls, objTabIndex, type, constructor);
 	lua_pushliteral( ls, "weight");			// STK: [OBJTAB] [ELEMTAB] [ELEM] "weight"
 	lua_pushnumber( ls, weight);			// STK: [OBJTAB] [ELEMTAB] [ELEM] "weight" [WEIGHT]
 	lua_rawset( ls, -3);				// STK: [OBJTAB] [ELEMTAB] [ELEM]
@@ -514,12 +513,12 @@ static inline void pushTypeConstructorWeightTuple( lua_State* ls, int type, int
 }
 
 void mewa::lua::pushTypeConstructor(
-		lua_State* ls, const char* functionName, int constructor)
+		lua_State* ls, const char* functionName, int objTabIndex, int constructor)
 {
 	checkStack( functionName, ls, 6);
 	if (constructor > 0)
 	{
-		lua_rawgeti( ls, LUA_REGISTRYINDEX, constructor);
+		lua_rawgeti( ls, objTabIndex, constructor);
 	}
 	else
 	{
@@ -528,7 +527,7 @@ void mewa::lua::pushTypeConstructor(
 }
 
 void mewa::lua::pushWeightedReductions(
-		lua_State* ls, const char* functionName,
+		lua_State* ls, const char* functionName, int objTabIndex,
 		const std::pmr::vector<mewa::TypeDatabase::WeightedReduction>& reductions)
 {
 	checkStack( functionName, ls, 6);
@@ -537,7 +536,7 @@ void mewa::lua::pushWeightedReductions(
 	for (auto const& reduction : reductions)
 	{
 		++ridx;
-		pushTypeConstructorWeightTuple( ls, reduction.type, reduction.constructor, reduction.weight, reduction.count);	// STK: [OBJTAB] [REDUTAB] [REDU]
+		pushTypeConstructorWeightTuple( ls, objTabIndex, reduction.type, reduction.constructor, reduction.weight, reduction.count);	// STK: [OBJTAB] [REDUTAB] [REDU]
 		lua_rawseti( ls, -2, ridx);											// STK: [OBJTAB] [REDUTAB]
 	}
 }
@@ -558,7 +557,7 @@ void mewa::lua::pushTypeList(
 }
 
 void mewa::lua::pushTypeConstructorPairs(
-		lua_State* ls, const char* functionName,
+		lua_State* ls, const char* functionName, int objTabIndex,
 		const mewa::TypeDatabase::TypeConstructorPairList& parameters)
 {
 	checkStack( functionName, ls, 8);
@@ -568,13 +567,13 @@ void mewa::lua::pushTypeConstructorPairs(
 	for (auto const& parameter : parameters)
 	{
 		++ridx;
-		pushTypeConstructorPair( ls, parameter.type, parameter.constructor);	// STK: [PARAMTAB] [PARAM]
+		pushTypeConstructorPair( ls, objTabIndex, parameter.type, parameter.constructor);	// STK: [PARAMTAB] [PARAM]
 		lua_rawseti( ls, -2, ridx);						// STK: [PARAMTAB]
 	}
 }
 
 static void pushTypeConstructorPairsWithReductionRoot(
-		lua_State* ls, const char* functionName,
+		lua_State* ls, const char* functionName, int objTabIndex,
 		int li_reduroot, const mewa::TypeDatabase::TypeConstructorPairList& parameters)
 {
 	mewa::lua::checkStack( functionName, ls, 8);
@@ -586,13 +585,13 @@ static void pushTypeConstructorPairsWithReductionRoot(
 	for (auto const& parameter : parameters)
 	{
 		++ridx;
-		pushTypeConstructorPair( ls, parameter.type, parameter.constructor);	// STK: [PARAMTAB] [PARAM]
+		pushTypeConstructorPair( ls, objTabIndex, parameter.type, parameter.constructor);	// STK: [PARAMTAB] [PARAM]
 		lua_rawseti( ls, -2, ridx);						// STK: [PARAMTAB]
 	}
 }
 
 void mewa::lua::pushReductionDefinition(
-		lua_State* ls, const char* functionName,
+		lua_State* ls, const char* functionName, int objTabIndex,
 		const mewa::TypeDatabase::ReductionDefinition& redu)
 {
 	checkStack( functionName, ls, 6);
@@ -610,7 +609,7 @@ void mewa::lua::pushReductionDefinition(
 	if (redu.constructor > 0)
 	{
 		lua_pushliteral( ls, "constructor");					// STK: [REDUTAB] "constructor"
-		lua_rawgeti( ls, LUA_REGISTRYINDEX, redu.constructor);			// STK: [REDUTAB] "constructor" [CONSTRUCTOR]
+		lua_rawgeti( ls, objTabIndex, redu.constructor);			// STK: [REDUTAB] "constructor" [CONSTRUCTOR]
 		lua_rawset( ls, -3);							// STK: [REDUTAB]
 	}
 
@@ -633,7 +632,7 @@ void mewa::lua::pushScope( lua_State* ls, const char* functionName, const mewa::
 }
 
 int mewa::lua::pushResolveResult(
-		lua_State* ls, const char* functionName, int contextTabLuaIndex,
+		lua_State* ls, const char* functionName, int objTabIndex, int contextTabLuaIndex,
 		const mewa::TypeDatabase::ResolveResult& resolveres)
 {
 	if (resolveres.rootIndex >= 0)
@@ -655,13 +654,13 @@ int mewa::lua::pushResolveResult(
 			lua_rawgeti( ls, relContextTabLuaIndex, resolveres.rootIndex);						// STK: [CTYPE] [ROOT]
 			if (lua_istable( ls, -1))
 			{
-				pushTypeConstructorPairsWithReductionRoot( ls, functionName, -1, resolveres.reductions); 	// STK: [CTYPE] [REDUS]
+				pushTypeConstructorPairsWithReductionRoot( ls, functionName, objTabIndex, -1, resolveres.reductions); 	// STK: [CTYPE] [REDUS]
 				lua_replace( ls, -2);
 			}
 			else
 			{
 				lua_pop( ls, 1);										// STK: [CTYPE]
-				mewa::lua::pushTypeConstructorPairs( ls, functionName, resolveres.reductions);			// STK: [CTYPE] [REDUS]
+				mewa::lua::pushTypeConstructorPairs( ls, functionName, objTabIndex, resolveres.reductions);			// STK: [CTYPE] [REDUS]
 			}
 			mewa::lua::pushTypeList( ls, functionName, resolveres.items);		 				// STK: [CTYPE] [REDUS] [ITEMS]
 			return 3;
@@ -669,7 +668,7 @@ int mewa::lua::pushResolveResult(
 		else
 		{
 			lua_pushinteger( ls, resolveres.contextType);
-			mewa::lua::pushTypeConstructorPairs( ls, functionName, resolveres.reductions);
+			mewa::lua::pushTypeConstructorPairs( ls, functionName, objTabIndex, resolveres.reductions);
 			mewa::lua::pushTypeList( ls, functionName, resolveres.items);
 			return 3;
 		}
diff --git a/src/lua_parameter.hpp b/src/lua_parameter.hpp
index 07eb343..0f5b0f3 100644
--- a/src/lua_parameter.hpp
+++ b/src/lua_parameter.hpp
@@ -58,10 +58,10 @@ mewa::Scope getArgumentAsScope( const char* functionName, lua_State* ls, int li)
 
 mewa::TagMask getArgumentAsTagMask( const char* functionName, lua_State* ls, int li);
 
-int getArgumentAsConstructor( const char* functionName, lua_State* ls, int li);
+int getArgumentAsConstructor( const char* functionName, lua_State* ls, int li, int objTabIndex);
 
 std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair> getArgumentAsTypeConstructorPairList(
-	const char* functionName, lua_State* ls, int li, std::pmr::memory_resource* memrsc);
+	const char* functionName, lua_State* ls, int li, int objTabIndex, std::pmr::memory_resource* memrsc);
 
 int getArgumentAsType( const char* functionName, lua_State* ls, int li);
 
@@ -76,21 +76,21 @@ inline void checkStack( const char* functionName, lua_State* ls, int sz)
 }
 
 void pushTypeConstructor(
-		lua_State* ls, const char* functionName, int constructor);
+		lua_State* ls, const char* functionName, int objTabIndex, int constructor);
 void pushWeightedReductions(
-		lua_State* ls, const char* functionName,
+		lua_State* ls, const char* functionName, int objTabIndex,
 		const std::pmr::vector<mewa::TypeDatabase::WeightedReduction>& reductions);
 void pushTypeList(
 		lua_State* ls, const char* functionName, const std::pmr::vector<int>& typepath);
 void pushTypeConstructorPairs(
-		lua_State* ls, const char* functionName,
+		lua_State* ls, const char* functionName, int objTabIndex,
 		const mewa::TypeDatabase::TypeConstructorPairList& list);
 void pushReductionDefinition(
-		lua_State* ls, const char* functionName,
+		lua_State* ls, const char* functionName, int objTabIndex,
 		const mewa::TypeDatabase::ReductionDefinition& redu);
 void pushScope( lua_State* ls, const char* functionName, const mewa::Scope& scope);
 int pushResolveResult(
-		lua_State* ls, const char* functionName, int rootContextArgumentLuaIndex,
+		lua_State* ls, const char* functionName, int objTabIndex, int rootContextArgumentLuaIndex,
 		const mewa::TypeDatabase::ResolveResult& resolveres);
 
 void pushStackTrace( lua_State* ls, const char* functionName, int nn, const std::vector<std::string>& ignoreList);
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 05d2050..1d14a49 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -114,6 +114,15 @@ static int luaFunction( lua_State* ls)
 	throw LuaErrorPushed();
 }
 
+/// \brief Push the table of the objects (instances and constructors) owned by a typedb on the stack
+/// \param[in] ud_index stack index of the typedb or of a tree created by it
+/// \return the stack index of the table
+static int pushObjectTable( lua_State* ls, int ud_index)
+{
+	lua_getuservalue( ls, ud_index);
+	return lua_gettop( ls);
+}
+
 static int destroy_memblock( lua_State* ls)
 {
 	memblock_userdata_t* mb = (memblock_userdata_t*)luaL_checkudata( ls, 1, mewa::MemoryBlock::metatablename());
@@ -545,6 +554,8 @@ static int mewa_new_typedb( lua_State* ls)
 	luaL_getmetatable( ls, mewa_typedb_userdata_t::metatableName());
 	lua_setmetatable( ls, -2);
 
+	lua_newtable( ls);		//... table of objects
+	lua_setuservalue( ls, -2);
 	return 1;
 }
 
@@ -620,8 +631,8 @@ static int mewa_typedb_this_instance( lua_State* ls)
 
 	if (handle > 0)
 	{
-		// Get the item referenced by 'handle' from the object registry:
-		lua_rawgeti( ls, LUA_REGISTRYINDEX, handle);
+		// Get the item referenced by 'handle' from the object table:
+		lua_rawgeti( ls, pushObjectTable( ls, 1), handle);
 		return 1;
 	}
 	else
@@ -646,8 +657,8 @@ static int mewa_typedb_get_instance( lua_State* ls)
 
 	if (handle > 0)
 	{
-		// Get the item referenced by 'handle' from the object registry:
-		lua_rawgeti( ls, LUA_REGISTRYINDEX, handle);
+		// Get the item referenced by 'handle' from the object table:
+		lua_rawgeti( ls, pushObjectTable( ls, 1), handle);
 		return 1;
 	}
 	else
@@ -671,9 +682,10 @@ static int mewa_typedb_set_instance( lua_State* ls)
 	}
 	catch (...) { lippincottFunction( ls); }
 
-	// Get a reference handle of the 3rd argument in the registry:
+	// Get a reference handle of the 3rd argument in the object table:
+	int objtab_index = pushObjectTable( ls, 1);
 	lua_pushvalue( ls, 3);
-	int handle = luaL_ref( ls, LUA_REGISTRYINDEX);
+	int handle = luaL_ref( ls, objtab_index);
 
 	try
 	{
@@ -719,9 +731,10 @@ static int mewa_typedb_def_type( lua_State* ls)
 		mewa::lua::checkStack( functionName, ls, 8);
 		int contextType = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 2);
 		std::string_view name = mewa::lua::getArgumentAsString( functionName, ls, 3);
-		int constructor = (nargs >= 4) ? mewa::lua::getArgumentAsConstructor( functionName, ls, 4) : 0;
+		int objtab_index = pushObjectTable( ls, 1);
+		int constructor = (nargs >= 4) ? mewa::lua::getArgumentAsConstructor( functionName, ls, 4, objtab_index) : 0;
 		std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair> parameter;
-		if (nargs >= 5 && !lua_isnil(ls,5)) parameter = mewa::lua::getArgumentAsTypeConstructorPairList( functionName, ls, 5, &memrsc_parameter);
+		if (nargs >= 5 && !lua_isnil(ls,5)) parameter = mewa::lua::getArgumentAsTypeConstructorPairList( functionName, ls, 5, objtab_index, &memrsc_parameter);
 		lua_pop( ls, 1); // ... obj table
 		int rt = td->impl->defineType( td->curScope, contextType, name, constructor, parameter);
 		lua_pushinteger( ls, rt);
@@ -816,7 +829,7 @@ static int mewa_typedb_def_reduction( lua_State* ls)
 		mewa::lua::checkStack( functionName, ls, 8);
 		int toType = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 2);
 		int fromType = mewa::lua::getArgumentAsUnsignedInteger( functionName, ls, 3);
-		int constructor = mewa::lua::getArgumentAsConstructor( functionName, ls, 4);
+		int constructor = mewa::lua::getArgumentAsConstructor( functionName, ls, 4, pushObjectTable( ls, 1));
 		int tag = mewa::lua::getArgumentAsUnsignedInteger( functionName, ls, 5);
 		float weight = (nargs >= 6 && !lua_isnil(ls,6)) ? mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 6) : 0.0;
 		td->impl->defineReduction( td->curScope, toType, fromType, constructor, tag, weight);
@@ -839,10 +852,11 @@ static int mewa_typedb_get_reduction( lua_State* ls)
 
 		auto redu = td->impl->getReduction( td->curStep, toType, fromType, selectTags);
 		if (!redu.defined()) return 0;
+		int objtab_index = pushObjectTable( ls, 1);
 		lua_pushnumber( ls, redu.weight);
 		if (redu.constructor == 0) return 1;
 
-		lua_rawgeti( ls, LUA_REGISTRYINDEX, redu.constructor);
+		mewa::lua::pushTypeConstructor( ls, functionName, objtab_index, redu.constructor);
 	}
 	catch (...) { lippincottFunction( ls); }
 	return 2;
@@ -862,7 +876,7 @@ static int mewa_typedb_get_reductions( lua_State* ls)
 
 		mewa::TypeDatabase::ResultBuffer resbuf;
 		auto res = td->impl->getReductions( td->curStep, type, selectTags, selectTagsCount, resbuf);
-		mewa::lua::pushWeightedReductions( ls, functionName, res.reductions);
+		mewa::lua::pushWeightedReductions( ls, functionName, pushObjectTable( ls, 1), res.reductions);
 	}
 	catch (...) { lippincottFunction( ls); }
 	return 1;
@@ -885,7 +899,7 @@ static int mewa_typedb_derive_type( lua_State* ls)
 		auto deriveres = td->impl->deriveType( td->curStep, toType, fromType, selectTags, selectTagsCount, maxPathLen, resbuf);
 		if (deriveres.defined)
 		{
-			mewa::lua::pushTypeConstructorPairs( ls, functionName, deriveres.reductions);
+			mewa::lua::pushTypeConstructorPairs( ls, functionName, pushObjectTable( ls, 1), deriveres.reductions);
 			lua_pushnumber( ls, deriveres.weightsum);
 			if (deriveres.conflictPath.empty())
 			{
@@ -926,13 +940,13 @@ static int mewa_typedb_resolve_type( lua_State* ls)
 
 			std::pmr::vector<int> contextTypes = mewa::lua::getArgumentAsTypeList( functionName, ls, 2, &memrsc_parameter, true/*allow t/c pairs*/);
 			auto resolveres = td->impl->resolveType( td->curStep, contextTypes, name, selectTags, resbuf);
-			return mewa::lua::pushResolveResult( ls, functionName, 2/*root context argument lua index*/, resolveres);
+			return mewa::lua::pushResolveResult( ls, functionName, pushObjectTable( ls, 1), 2/*root context argument lua index*/, resolveres);
 		}
 		else
 		{
 			int contextType = mewa::lua::getArgumentAsType( functionName, ls, 2);
 			auto resolveres = td->impl->resolveType( td->curStep, contextType, name, selectTags, resbuf);
-			return mewa::lua::pushResolveResult( ls, functionName, 0/*root context argument lua index*/, resolveres);
+			return mewa::lua::pushResolveResult( ls, functionName, pushObjectTable( ls, 1), 0/*root context argument lua index*/, resolveres);
 		}
 	}
 	catch (...) { lippincottFunction( ls); }
@@ -1002,7 +1016,7 @@ static int mewa_typedb_type_parameters( lua_State* ls)
 		mewa::lua::checkStack( functionName, ls, 6);
 		int type = mewa::lua::getArgumentAsUnsignedInteger( functionName, ls, 2);
 		auto rt = td->impl->typeParameters( type);
-		mewa::lua::pushTypeConstructorPairs( ls, functionName, rt);
+		mewa::lua::pushTypeConstructorPairs( ls, functionName, pushObjectTable( ls, 1), rt);
 	}
 	catch (...) { lippincottFunction( ls); }
 	return 1;
@@ -1034,7 +1048,7 @@ static int mewa_typedb_type_constructor( lua_State* ls)
 		mewa::lua::checkStack( functionName, ls, 2);
 		int type = mewa::lua::getArgumentAsUnsignedInteger( functionName, ls, 2);
 		auto rt = td->impl->typeConstructor( type);
-		mewa::lua::pushTypeConstructor( ls, functionName, rt);
+		mewa::lua::pushTypeConstructor( ls, functionName, pushObjectTable( ls, 1), rt);
 	}
 	catch (...) { lippincottFunction( ls); }
 	return 1;
@@ -1123,7 +1137,7 @@ int tree_iter<mewa::TypeDatabase::ReductionDefinitionTree>( lua_State* ls)
 		std::size_t iter = lua_tointeger( ls, lua_upvalueindex(2));
 		if (!ud->tree.get() || ud->nodeidx == 0 || iter >= (*ud->tree)[ ud->nodeidx].item().value.size()) return 0;
 		const mewa::TypeDatabase::ReductionDefinition& redu = (*ud->tree)[ ud->nodeidx].item().value[ iter];
-		mewa::lua::pushReductionDefinition( ls, functionName, redu);
+		mewa::lua::pushReductionDefinition( ls, functionName, pushObjectTable( ls, lua_upvalueindex(1)), redu);
 		iter += 1;
 		lua_pushinteger( ls, iter);
 		lua_replace( ls, lua_upvalueindex(2));
@@ -1154,6 +1168,8 @@ struct LuaTreeMetaMethods
 
 		luaL_getmetatable( ls, UD::metatableName());
 		lua_setmetatable( ls, -2);
+		pushObjectTable( ls, 1);
+		lua_setuservalue( ls, -2);
 		return 1;
 	}
 
@@ -1186,6 +1202,8 @@ struct LuaTreeMetaMethods
 			cur_ud->createCopy( *ud, iter);
 			luaL_getmetatable( ls, UD::metatableName());
 			lua_setmetatable( ls, -2);
+			pushObjectTable( ls, lua_upvalueindex(1));
+			lua_setuservalue( ls, -2);
 
 			iter = (*ud->tree)[ iter].next();
 			lua_pushinteger( ls, iter);
@@ -1218,6 +1236,8 @@ struct LuaTreeMetaMethods
 				chld_ud->createCopy( *ud, chld);
 				luaL_getmetatable( ls, UD::metatableName());
 				lua_setmetatable( ls, -2);
+				pushObjectTable( ls, 1);
+				lua_setuservalue( ls, -2);
 
 				lua_pushinteger( ls, chld);
 				lua_pushcclosure( ls, &luaFunction<chld_iter>, 2);
@@ -1267,7 +1287,7 @@ static int mewa_objtree_instance( lua_State* ls)
 	{
 		mewa_objtree_userdata_t* ud = (mewa_objtree_userdata_t*)luaL_checkudata( ls, 1, mewa_objtree_userdata_t::metatableName());
 		if (!ud->tree.get() || ud->nodeidx == 0) return 0;
-		mewa::lua::pushTypeConstructor( ls, functionName, (*ud->tree)[ ud->nodeidx].item().value);
+		mewa::lua::pushTypeConstructor( ls, functionName, pushObjectTable( ls, 1), (*ud->tree)[ ud->nodeidx].item().value);
 	}
 	catch (...) { lippincottFunction( ls); }
 	return 1;
-- 
2.43.0


From 57c690a51237a562ea5c43d95642ff6ab3fa4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:56 +0000
Subject: [PATCH 48/51] fix: a compiler refused to be created was never
 released

---
 src/lualib_mewa.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 1d14a49..f1e3102 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -349,17 +349,17 @@ static int mewa_new_compiler( lua_State* ls)
 	}
 	catch (...) { lippincottFunction( ls); }
 
+	luaL_getmetatable( ls, mewa_compiler_userdata_t::metatableName());
+	lua_setmetatable( ls, -2);	//... from now on released by the garbage collector, also in case of an error
+
 	lua_pushliteral( ls, "call");
 	lua_gettable( ls, 1);
 	lua_setglobal( ls, cp->callTableName.buf);
 	try
 	{
-		new (&cp->automaton) mewa::Automaton( mewa::luaLoadAutomaton( ls, 1));
+		cp->automaton = mewa::luaLoadAutomaton( ls, 1);
 	}
 	catch (...) { lippincottFunction( ls); }
-
-	luaL_getmetatable( ls, mewa_compiler_userdata_t::metatableName());
-	lua_setmetatable( ls, -2);
 	return 1;
 }
 
-- 
2.43.0


From 5d7aca716195db98d4167cd5a44fccbfde422ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:56 +0000
Subject: [PATCH 49/51] fix: memory allocated after the initial buffer was used
 up was never released

---
 src/memory_resource.hpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/memory_resource.hpp b/src/memory_resource.hpp
index 24ac975..f32e167 100644
--- a/src/memory_resource.hpp
+++ b/src/memory_resource.hpp
@@ -57,13 +57,13 @@ class monotonic_buffer_resource : public std::pmr::memory_resource
 {
 public:
 	monotonic_buffer_resource( std::size_t initsize, std::pmr::memory_resource* upstream_)
-		:m_baseptr(nullptr),m_index(0),m_size(initsize),m_upstream(upstream_),m_ownership_upstream(false),m_ownership_baseptr(true)
+		:m_baseptr(nullptr),m_index(0),m_size(initsize),m_upstream(upstream_),m_upstreamBlocks(nullptr),m_ownership_upstream(false),m_ownership_baseptr(true)
 	{
 		m_baseptr = (char*)std::malloc( m_size);
 		m_ownership_baseptr = m_baseptr != nullptr;
 	}
 	explicit monotonic_buffer_resource( std::size_t initsize)
-		:m_baseptr(nullptr),m_index(0),m_size(initsize),m_upstream(nullptr),m_ownership_upstream(false),m_ownership_baseptr(true)
+		:m_baseptr(nullptr),m_index(0),m_size(initsize),m_upstream(nullptr),m_upstreamBlocks(nullptr),m_ownership_upstream(false),m_ownership_baseptr(true)
 	{
 		init_new_upstream();
 		m_baseptr = (char*)std::malloc( m_size);
@@ -71,18 +71,24 @@ public:
 	}
 	~monotonic_buffer_resource()
 	{
+		for (UpstreamBlock* block = m_upstreamBlocks; block;)
+		{
+			UpstreamBlock* next = block->next;
+			m_upstream->deallocate( block, block->size, block->alignment);
+			block = next;
+		}
 		if (m_ownership_baseptr) std::free( m_baseptr);
 		if (m_ownership_upstream) delete m_upstream;
 	}
 
 	monotonic_buffer_resource( void* buffer, std::size_t buffersize)
-		:m_baseptr((char*)buffer),m_index(0),m_size(buffersize),m_upstream(nullptr),m_ownership_upstream(false),m_ownership_baseptr(false)
+		:m_baseptr((char*)buffer),m_index(0),m_size(buffersize),m_upstream(nullptr),m_upstreamBlocks(nullptr),m_ownership_upstream(false),m_ownership_baseptr(false)
 	{
 		init_new_upstream();
 	}
 
 	monotonic_buffer_resource( void* buffer, std::size_t buffersize, std::pmr::memory_resource* upstream_)
-		:m_baseptr((char*)buffer),m_index(0),m_size(buffersize),m_upstream(upstream_),m_ownership_upstream(false),m_ownership_baseptr(false)
+		:m_baseptr((char*)buffer),m_index(0),m_size(buffersize),m_upstream(upstream_),m_upstreamBlocks(nullptr),m_ownership_upstream(false),m_ownership_baseptr(false)
 	{}
 
 	monotonic_buffer_resource(const monotonic_buffer_resource&) = delete;
@@ -118,6 +124,13 @@ private:
 #endif
 	}
 private:
+	struct UpstreamBlock
+	{
+		UpstreamBlock* next;
+		std::size_t size;
+		std::size_t alignment;
+	};
+
 	int isPowerOfTwo( size_t x)
 	{
 		return ((x != 0) && ((x & (~x + 1)) == x));
@@ -133,12 +146,23 @@ private:
 		}
 	}
 
+	/// \brief Allocate a block that does not fit into the buffer, released in the destructor
+	void* allocateUpstream( size_t bytes, size_t alignment)
+	{
+		if (alignment < alignof(UpstreamBlock)) alignment = alignof(UpstreamBlock);
+		std::size_t headerSize = (sizeof(UpstreamBlock) + alignment - 1) & ~(alignment - 1);
+		std::size_t size = headerSize + bytes;
+		void* mem = m_upstream->allocate( size, alignment);
+		m_upstreamBlocks = new (mem) UpstreamBlock{ m_upstreamBlocks, size, alignment};
+		return (char*)mem + headerSize;
+	}
+
 	void* allocate_( size_t __bytes, size_t __alignment)
 	{
 		skip_align( __alignment);
 		if (m_index + __bytes > m_size)
 		{
-			return m_upstream->allocate( __bytes, __alignment);
+			return allocateUpstream( __bytes, __alignment);
 		}
 		void* rt = m_baseptr + m_index;
 		m_index += __bytes;
@@ -150,6 +174,7 @@ private:
 	std::size_t m_index;
 	std::size_t m_size;
 	std::pmr::memory_resource* m_upstream;
+	UpstreamBlock* m_upstreamBlocks;
 	bool m_ownership_upstream;
 	bool m_ownership_baseptr;
 };
-- 
2.43.0


From e720163ad9966a9810d995fd56ae3f7edef4c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 50/51] fix: a result of a function that cannot be printed in
 the debug output does not fail the run

---
 src/lua_run_compiler.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 266ac33..f38f27f 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -399,7 +399,17 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 		else if (dbgout && !lua_isnil( ls, -1))
 		{
 			printDebug( dbgout, "Lua call result [%d]\n", li-calltable);
-			std::string resstr( mewa::luaToString( ls, -1, true/*formatted*/, 0/*no maximum depth*/));
+			int top = lua_gettop( ls);
+			std::string resstr;
+			try
+			{
+				resstr = mewa::luaToString( ls, -1, true/*formatted*/, 0/*no maximum depth*/);
+			}
+			catch (const mewa::Error& err)
+			{
+				lua_settop( ls, top);
+				resstr = err.what(); //... a result that cannot be printed, e.g. a cyclic structure, is no failure of the run
+			}
 			printDebug( dbgout, "%s\n", resstr.c_str());
 		}
 		lua_pop( ls, 4);					// STK: 
-- 
2.43.0


From b1990ca9a215442ddeac6cbe9968e2808ff2fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 51/51] fix: a reduction in conflict with the end of a
 successful parse was accepted and decided by priorities instead of being
 reported

---
 src/automaton.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 20e7439..8f81778 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -899,7 +899,17 @@ static void insertAction(
 	auto ains = actionMap.insert( {key, action} );
 	auto pi =  priorityMap.find( key);
 
-	if (pi == priorityMap.end() || ains.second/*is new*/)
+	if (!ains.second/*not new*/ && ains.first->second.type() == Automaton::Action::Accept)
+	{
+		//... the reduction accepted is an item of the state too. Any other reduction is in conflict with it, priorities do not decide between reductions.
+		if (ains.first->second.nonterminal() != action.nonterminal())
+		{
+			warnings.push_back(
+				Error( Error::ReduceReduceConflictInGrammarDef,
+				getStateTransitionString( lr1State, terminal, prodlist, lexer, followMap)));
+		}
+	}
+	else if (pi == priorityMap.end() || ains.second/*is new*/)
 	{
 		priorityMap[ key] = priority;
 	}
-- 
2.43.0

