From 06bbf399ceb610d4ae96e8eaf6c5dfa630b9420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 01/45] fix: integer division by zero, overflow and arithmetic
 without arguments are defined instead of crashing

---
 CppLisp/CppLispInterpreter/Environment.cpp |  6 +++-
 CppLisp/CppLispInterpreter/Variant.cpp     | 35 ++++++++++++++++++----
 CppLisp/CppLispInterpreter/Variant.h       |  1 +
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 34854b6..8e68947 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -865,6 +865,10 @@ static std::shared_ptr<LispVariant> UpperCase(const std::vector<std::shared_ptr<
 static std::shared_ptr<LispVariant> ArithmetricOperation(const std::vector<std::shared_ptr<object>> & args, std::function<std::shared_ptr<LispVariant>(std::shared_ptr<LispVariant>, std::shared_ptr<LispVariant>)> op)
 {
 	std::shared_ptr<LispVariant> result(null);
+	if (args.size() == 0)
+	{
+		throw LispExceptionBase("Bad argument count in arithmetic operation, has 0 expected at least 1");
+	}
 	for (var elem : args)
 	{
 		if (result == null)
@@ -897,7 +901,7 @@ static std::shared_ptr<LispVariant> Subtraction(const std::vector<std::shared_pt
 		var value = (LispVariant)args[0];
 		if (value.IsInt())
 		{
-			return std::make_shared<LispVariant>(std::make_shared<object>(-value.IntValue()));
+			return std::make_shared<LispVariant>(std::make_shared<object>((int)(0u - (unsigned int)value.IntValue())));
 		}
 		if (value.IsDouble())
 		{
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index be6ea42..aee23db 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -364,6 +364,12 @@ namespace CppLisp
 		list->Add(value);
 	}
 
+	// integer arithmetic wraps around on overflow (signed overflow is undefined in C++)
+	static int WrapInt(unsigned int value)
+	{
+		return (int)value;
+	}
+
 	LispVariant LispVariant::operator+(const LispVariant & r)
 	{
 		if (IsString() || r.IsString())
@@ -376,7 +382,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() + r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>(WrapInt((unsigned int)ToInt() + (unsigned int)r.ToInt())));
 		}
 		if (IsList() && r.IsList())
 		{
@@ -396,7 +402,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() - r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>(WrapInt((unsigned int)ToInt() - (unsigned int)r.ToInt())));
 		}
 		throw CreateInvalidOperationException("-", *this, r);
 	}
@@ -409,7 +415,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() * r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>(WrapInt((unsigned int)ToInt() * (unsigned int)r.ToInt())));
 		}
 		throw CreateInvalidOperationException("*", *this, r);
 	}
@@ -422,7 +428,13 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() / r.ToInt()));
+			int dividend = ToInt();
+			int divisor = r.ToInt();
+			if (divisor == 0)
+			{
+				throw CreateDivisionByZeroException("/");
+			}
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? WrapInt(0u - (unsigned int)dividend) : dividend / divisor));
 		}
 		throw CreateInvalidOperationException("/", *this, r);
 	}
@@ -435,7 +447,13 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() % r.ToInt()));
+			int dividend = ToInt();
+			int divisor = r.ToInt();
+			if (divisor == 0)
+			{
+				throw CreateDivisionByZeroException("%");
+			}
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? 0 : dividend % divisor));
 		}
 		throw CreateInvalidOperationException("%", *this, r);
 	}
@@ -573,6 +591,13 @@ namespace CppLisp
 		return exception;
 	}
 
+	LispException LispVariant::CreateDivisionByZeroException(const string & operation) const
+	{
+		var exception = /*new*/ LispException(string::Format("Division by zero in operator {0}", operation), 0);
+		exception.AddTokenInfos(Token);
+		return exception;
+	}
+
 	const LispFunctionWrapper & LispVariant::FunctionValue() const
 	{
 		//get
diff --git a/CppLisp/CppLispInterpreter/Variant.h b/CppLisp/CppLispInterpreter/Variant.h
index bd97a65..c61fd91 100644
--- a/CppLisp/CppLispInterpreter/Variant.h
+++ b/CppLisp/CppLispInterpreter/Variant.h
@@ -390,6 +390,7 @@ namespace CppLisp
 
 		/*private*/ static LispType TypeOf(std::shared_ptr<object> obj);
 
+		/*private*/ LispException CreateDivisionByZeroException(const string & operation) const;
 		/*private*/ LispException CreateInvalidCastException(const string & name, const string & msg = "no") const;
 	    /*private*/ static LispException CreateInvalidOperationException(const string & operation, const LispVariant & l, const LispVariant & r);
 
-- 
2.43.0


From df12179da61a40c34b454335257e475721d3c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 02/45] fix: compare lists element by element with the equality
 of values, different kinds are unequal

---
 CppLisp/CppLispInterpreter/Variant.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index aee23db..fb41a0b 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -512,7 +512,22 @@ namespace CppLisp
 		}
 		if (l.IsList() && r.IsList())
 		{
-			return l.ListValueRef().SequenceEqual(r.ListValueRef());
+			const IEnumerable<std::shared_ptr<object>> & left = l.ListValueRef();
+			const IEnumerable<std::shared_ptr<object>> & right = r.ListValueRef();
+			if (left.size() != right.size())
+			{
+				return false;
+			}
+			var iter = right.begin();
+			for (var elem : left)
+			{
+				if (!EqualOp(LispVariant(elem), LispVariant(*iter)))
+				{
+					return false;
+				}
+				++iter;
+			}
+			return true;
 		}
 		if (l.IsUndefined() || r.IsUndefined())
 		{
@@ -522,6 +537,11 @@ namespace CppLisp
 		{
 			return l.ToString() == r.ToString();
 		}
+		// values of different kinds are never equal
+		if (l.Type != r.Type && !((l.IsNumber() || l.IsBool()) && (r.IsNumber() || r.IsBool())))
+		{
+			return false;
+		}
 		if (l.IsDouble() || r.IsDouble())
 		{
 			return /*Math.A*/fabs(l.ToDouble() - r.ToDouble()) < Tolerance;
-- 
2.43.0


From 8bfd78e1ac6b01ac8e86c5d9efd87aaa26e62235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 03/45] fix: name the operand types in the message for
 undefined operators

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index fb41a0b..2d31c3d 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -606,7 +606,7 @@ namespace CppLisp
 
 	LispException LispVariant::CreateInvalidOperationException(const string & operation, const LispVariant & l, const LispVariant & r)
 	{
-		var exception = /*new*/ LispException(string::Format(NoOperatorForTypes, operation, l.Type, r.Type), 0);
+		var exception = /*new*/ LispException(string::Format(NoOperatorForTypes, operation, l.TypeString(), r.TypeString()), 0);
 		exception.AddTokenInfos(l.Token);
 		return exception;
 	}
-- 
2.43.0


From 641fd6b643d0e935a67bd567c63dbdaa933614ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 04/45] fix: format replaces every placeholder once, does not
 rescan argument texts and rejects malformed widths

---
 CppLisp/CppLispInterpreter/csstring.cpp | 140 +++++++++---------------
 CppLisp/CppLispInterpreter/csstring.h   |   2 -
 2 files changed, 49 insertions(+), 93 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 981637b..ee9151d 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -115,107 +115,65 @@ namespace CppLisp
 		return txt.size() == 0;
 	}
 
-	string string::ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found)
-	{
-		auto pos = temp.find(findText);
-		string ret = temp;
-		if (pos != std::string::npos)
-		{
-			ret = ret.replace(pos, findText.size(), arg);
-			found = true;
-		}
-		else
-		{
-			found = false;
-		}
-		return ret;
-	}
+	// upper limit for the width of a placeholder (as in C#)
+	static const int MaxFormatWidth = 1000000;
 
-	string string::ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found)
+	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
 	{
-		found = false;
-		string ret = temp;
-		auto pos = ret.find(findText);
-		if (pos != std::string::npos)
+		const string * args[] = { &arg1, &arg2, &arg3, &arg4, &arg5 };
+		string result;
+		size_t i = 0;
+		while (i < txt.size())
 		{
-			auto pos2 = ret.find("}", pos + 1);
-			if (pos2 != std::string::npos)
+			// placeholders are {n} and {n,width}, the texts of the arguments are not scanned for placeholders again
+			if (txt[i] == '{' && i + 2 < txt.size() && txt[i + 1] >= '0' && txt[i + 1] <= '4')
 			{
-				string len = ret.substr(pos + 3, pos2 - pos - findText.size());
-				int l = std::stoi(len);
-				if (l > 0)
+				size_t pos = i + 2;
+				bool isValid = true;
+				bool alignLeft = false;
+				int width = 0;
+				if (txt[pos] == ',')
 				{
-					int count = l - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, std::string(count > 0 ? count : 0, ' ') + arg);
-					found = true;
+					pos++;
+					while (pos < txt.size() && txt[pos] == ' ')
+					{
+						pos++;
+					}
+					if (pos < txt.size() && (txt[pos] == '-' || txt[pos] == '+'))
+					{
+						alignLeft = txt[pos] == '-';
+						pos++;
+					}
+					const size_t start = pos;
+					while (pos < txt.size() && txt[pos] >= '0' && txt[pos] <= '9')
+					{
+						width = width * 10 + (txt[pos] - '0');
+						if (width >= MaxFormatWidth)
+						{
+							throw LispExceptionBase("Width out of range in format string: " + txt);
+						}
+						pos++;
+					}
+					isValid = pos > start;
 				}
-				else
+				if (isValid && pos < txt.size() && txt[pos] == '}')
 				{
-					int count = abs(l) - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, arg + std::string(count > 0 ? count : 0, ' '));
-					found = true;
+					const string & arg = *args[txt[i + 1] - '0'];
+					if (arg == NULL_STRING)
+					{
+						throw LispExceptionBase("Not enough items for format string: " + txt);
+					}
+					const int count = width - (int)arg.size();
+					const std::string fill(count > 0 ? count : 0, ' ');
+					result += alignLeft ? arg + fill : fill + arg;
+					i = pos + 1;
+					continue;
 				}
 			}
+			result += txt[i];
+			i++;
 		}
-		return ret;
-	}
-
-	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
-	{
-		const string ERR_MSG = "Not enough items for format string: " + txt;
-		bool found;
-		string temp = txt;
-		temp = ReplaceIn(temp, "{0}", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{0,", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{1}", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{1,", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{2}", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{2,", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{3}", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{3,", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{4}", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{4,", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		return temp;
+		return result;
 	}
 
     int string::CompareOrdinal(const string & a, const string & b)
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 88499c9..2545b73 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -185,8 +185,6 @@ namespace CppLisp
 		std::vector<string> Split(const string & seperator) const;
 
 		static bool IsNullOrEmpty(const string & txt);
-		static string ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found);
-		static string ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found);
 		static string Format(const string & txt, const string & arg1 = NULL_STRING, const string & arg2 = NULL_STRING, const string & arg3 = NULL_STRING, const string & arg4 = NULL_STRING, const string & arg5 = NULL_STRING);
 		static int CompareOrdinal(const string & a, const string & b);
 
-- 
2.43.0


From 428ad154b9f93854f9815bfa4ca97a96366543e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 05/45] fix: errors inside functions keep their type and
 position and leave the call stack of the session

---
 CppLisp/CppLispInterpreter/Environment.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 8e68947..69ae7fa 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1856,7 +1856,8 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		catch (LispStopDebuggerException & exc)
 		{
 			// forward a debugger stop exception to stop the debugger loop
-			throw exc;
+			localScope->PopNextScope();
+			throw;
 		}
 		catch (LispExceptionBase & ex)
 		{
@@ -1873,7 +1874,8 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
 			}
 
-			throw ex;
+			localScope->PopNextScope();
+			throw;
 		}
 		localScope->PopNextScope();
 		return ret;
-- 
2.43.0


From 125f50d6a5865801b41c894ac8f98928662b8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 06/45] fix: access to list elements that do not exist raises
 an error instead of undefined behaviour

---
 CppLisp/CppLispInterpreter/Environment.cpp |  6 ++--
 CppLisp/CppLispInterpreter/cstypes.h       | 36 ++++++++++++++++------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 69ae7fa..e983b23 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1109,7 +1109,7 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 			{ 
 				var vl = listValue->ToLispVariantNotConstRef();
 				IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
-				container[0] = newValue;
+				container.SetElementAt(0, newValue);
 			};
 
 		return std::make_shared<LispVariant>(LispVariant(/*LispType::_LValue,*/ action));
@@ -1139,7 +1139,7 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
-			container[container.Count()-1] = newValue;
+			container.SetElementAt(container.Count()-1, newValue);
 		};
 
 		return std::make_shared<LispVariant>(LispVariant(/*LispType::_LValue,*/ action));
@@ -1183,7 +1183,7 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
-			container[index] = newValue;
+			container.SetElementAt(index, newValue);
 		};
 
 		return std::make_shared<LispVariant>(LispVariant(/*LispType::_LValue,*/ action));
diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index 1a390fd..ad75a7b 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -27,6 +27,7 @@
 #define _CSTYPES_H
 
 #include "csstring.h"
+#include "csexception.h"
 
 #include <vector>
 #include <map>
@@ -55,6 +56,15 @@ namespace CppLisp
 	template <class T>
 	class IEnumerable : public std::vector<T>
 	{
+	private:
+		inline void CheckIndex(size_t index) const
+		{
+			if (index >= Count())
+			{
+				throw LispExceptionBase("Index out of range");
+			}
+		}
+
 	public:
 		IEnumerable()
 			: std::vector<T>()
@@ -78,6 +88,7 @@ namespace CppLisp
 
 		inline const T & First() const
 		{
+			CheckIndex(0);
 			return std::vector<T>::front();
 		}
 
@@ -92,14 +103,22 @@ namespace CppLisp
 
 		inline const T & Last() const
 		{
+			CheckIndex(0);
 			return std::vector<T>::back();
 		}
 
 		inline const T ElementAt(size_t index) const
 		{
+			CheckIndex(index);
 			return (*this)[index];
 		}
 
+		inline void SetElementAt(size_t index, const T & elem)
+		{
+			CheckIndex(index);
+			(*this)[index] = elem;
+		}
+
 		inline void Add(const T & elem)
 		{
 			std::vector<T>::push_back(elem);
@@ -112,13 +131,17 @@ namespace CppLisp
 
 		inline void Insert(int index, const T & elem)
 		{
+			if (index < 0 || (size_t)index > Count())
+			{
+				throw LispExceptionBase("Index out of range");
+			}
 			std::vector<T>::insert(this->begin() + index, elem);
 		}
 
 		IEnumerable<T> Skip(int skipNoOfElements)
 		{
 			IEnumerable<T> temp(*this);
-			for (int i = 0; i < skipNoOfElements; i++)
+			for (int i = 0; i < skipNoOfElements && !temp.empty(); i++)
 			{
 				temp.erase(temp.begin());
 			}
@@ -127,15 +150,8 @@ namespace CppLisp
 
 		void RemoveAt(int index)
 		{
-			typename IEnumerable<T>::iterator iter = std::vector<T>::begin();
-			for (int i = 0; i < index; i++)
-			{
-				++iter;
-			}
-			if (iter != std::vector<T>::end())
-			{
-				std::vector<T>::erase(iter);
-			}
+			CheckIndex((size_t)index);
+			std::vector<T>::erase(std::vector<T>::begin() + index);
 		}
 
 		bool SequenceEqual(const IEnumerable & other) const
-- 
2.43.0


From 713c3fdb308a8f0bae772b9943a3314f0cfe0749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 07/45] fix: SaveEval reports every error and returns an error
 value for it

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 0b67c2a..197997e 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -140,6 +140,24 @@ namespace CppLisp
 		return result;
 	}
 
+	static string GetDataText(LispException & exc, const string & key)
+	{
+		var data = exc.Data[key];
+		return data != null ? data->ToString() : "not available";
+	}
+
+	// reports an error for which no position is known
+	static std::shared_ptr<LispVariant> ReportError(const string & message, std::shared_ptr<TextWriter> outp)
+	{
+		string errMsg = string::Format("\nError executing script.\n\n{0}", message);
+		std::cout << errMsg << std::endl;
+		if (outp != null)
+		{
+			outp->WriteLine(errMsg);
+		}
+		return LispVariant::CreateErrorValue(message);
+	}
+
 	std::shared_ptr<LispVariant> Lisp::SaveEval(const string & lispCode, const string & moduleName, bool verboseErrorOutput, bool tracing, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp, bool onlyMacroExpand)
 	{
 		std::shared_ptr<LispVariant> result;
@@ -150,7 +168,7 @@ namespace CppLisp
 		catch (LispException exc)
 		{
 			/*Console.WriteLine*/ //std::cout << string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, exc.Data[LispUtils.LineNo], exc.Data[LispUtils.StartPos], exc.Data[LispUtils.StopPos], exc.Data[LispUtils.ModuleName]) << std::endl;
-			string errMsg = string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, exc.Data["LineNo"]->ToString(), exc.Data["StartPos"]->ToString(), exc.Data["StopPos"]->ToString(), exc.Data["ModuleName"]->ToString());
+			string errMsg = string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, GetDataText(exc, "LineNo"), GetDataText(exc, "StartPos"), GetDataText(exc, "StopPos"), GetDataText(exc, "ModuleName"));
 			std::cout << errMsg << std::endl;
 			if (outp != null)
 			{
@@ -179,7 +197,11 @@ namespace CppLisp
 		}
 		catch (LispExceptionBase exc)
 		{
-			result = LispVariant::CreateErrorValue(exc.Message);
+			result = ReportError(exc.Message, outp);
+		}
+		catch (std::exception & exc)
+		{
+			result = ReportError(exc.what(), outp);
 		}
 		return result;
 	}
-- 
2.43.0


From 757364c44b395678d484854fc8363fe8148977b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 08/45] fix: or evaluates its arguments until one is true

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e983b23..eee976a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1491,7 +1491,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 		else
 		{
 			// process or
-			if (!result)
+			if (result)
 			{
 				break;
 			}
-- 
2.43.0


From 14514ab72b2b7f1d4cf28710be195141bbc3913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 09/45] fix: text functions check their indices, search
 respects its length argument, texts are compared and replaced completely

---
 CppLisp/CppLispInterpreter/Environment.cpp |  9 +++++++--
 CppLisp/CppLispInterpreter/csstring.cpp    | 19 ++++++++++++++-----
 CppLisp/CppLispInterpreter/csstring.h      | 11 +++++------
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index eee976a..7a109f8 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -810,7 +810,7 @@ static std::shared_ptr<LispVariant> Search(const std::vector<std::shared_ptr<obj
 	}
 	else
 	{
-		throw LispExceptionBase("search not supported for type " + string((int)args[1]->GetType()));
+		throw LispExceptionBase("search not supported for type " + LispEnvironment::GetLispType(args[1]));
 	}
 	return std::make_shared<LispVariant>(std::make_shared<object>((int)foundPos));
 }
@@ -1172,7 +1172,12 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 	const LispVariant & val = args[1]->ToLispVariantRef();
 	if (val.IsString())
 	{
-		return std::make_shared<LispVariant>(std::make_shared<object>(val.StringValue().Substring(index, 1)));
+		const string text = val.StringValue();
+		if (index >= text.size())
+		{
+			throw LispExceptionBase("Index out of range");
+		}
+		return std::make_shared<LispVariant>(std::make_shared<object>(text.Substring(index, 1)));
 	}
 	if (scope->NeedsLValue)
 	{
diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index ee9151d..3699949 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -66,17 +66,26 @@ namespace CppLisp
 		return std::equal(txt.rbegin(), txt.rend(), rbegin());
 	}
 
+	string string::Substring(size_t offs, size_t length) const
+	{
+		if (offs > size())
+		{
+			throw LispExceptionBase("Index out of range");
+		}
+		return string(substr(offs, length));
+	}
+
 	string string::ToUpper() const
 	{
 		string temp = *this;
-		std::transform(temp.begin(), temp.end(), temp.begin(), std::ptr_fun<int, int>(std::toupper));
+		std::transform(temp.begin(), temp.end(), temp.begin(), [](unsigned char c) { return (char)std::toupper(c); });
 		return temp;
 	}
 
 	string string::ToLower() const
 	{
 		string temp = *this;
-		std::transform(temp.begin(), temp.end(), temp.begin(), std::ptr_fun<int, int>(std::tolower));
+		std::transform(temp.begin(), temp.end(), temp.begin(), [](unsigned char c) { return (char)std::tolower(c); });
 		return temp;
 	}
 
@@ -84,8 +93,8 @@ namespace CppLisp
 	{
 		// https://stackoverflow.com/questions/216823/whats-the-best-way-to-trim-stdstring
 		string s = *this;
-		s.erase(s.begin(), std::find_if_not(s.begin(), s.end(), [](char c) { return std::isspace(c); }));
-		s.erase(std::find_if_not(s.rbegin(), s.rend(), [](char c) { return std::isspace(c); }).base(), s.end());
+		s.erase(s.begin(), std::find_if_not(s.begin(), s.end(), [](unsigned char c) { return std::isspace(c); }));
+		s.erase(std::find_if_not(s.rbegin(), s.rend(), [](unsigned char c) { return std::isspace(c); }).base(), s.end());
 		return s;
 	}
 
@@ -178,6 +187,6 @@ namespace CppLisp
 
     int string::CompareOrdinal(const string & a, const string & b)
 	{
-		return strcmp(a.c_str(), b.c_str());
+		return a.compare(b);
 	}
 }
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 2545b73..3cfef83 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -137,15 +137,12 @@ namespace CppLisp
 			return compare(0, txt.length(), txt) == 0;
 		}
 
-		inline string Substring(size_t offs, size_t length = npos) const
-		{
-			return string(substr(offs, length));
-		}
+		string Substring(size_t offs, size_t length = npos) const;
 
 		inline string Replace(const string & searchTxt, const string & replaceTxt) const
 		{
 			std::string s = *this;
-			return do_replace(s, searchTxt.c_str(), replaceTxt.c_str());
+			return do_replace(s, searchTxt, replaceTxt);
 		}
 		
 		inline size_t IndexOf(const string & txt, const string & /*arg*//*StringComparison.InvariantCulture*/) const
@@ -160,7 +157,9 @@ namespace CppLisp
 
 		inline size_t IndexOf(const string & txt, size_t offset, size_t count) const
 		{
-			return find(txt.c_str(), offset, count);
+			// search only in the count characters starting at offset (as in C#)
+			const size_t pos = find(txt, offset);
+			return pos != npos && txt.size() <= count && pos - offset <= count - txt.size() ? pos : npos;
 		}
 
 		inline void Append(const string & txt)
-- 
2.43.0


From da2ca72da1424c28ccdcbe67a30f21ed9693de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 10/45] fix: forms without a value count as undefined instead
 of crashing where a value is needed

---
 CppLisp/CppLispInterpreter/Environment.cpp | 27 +++++++++++-----------
 CppLisp/CppLispInterpreter/Interpreter.cpp | 14 +++++++++--
 CppLisp/CppLispInterpreter/Interpreter.h   | 10 ++++++++
 3 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 7a109f8..6ef2618 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -244,7 +244,7 @@ static std::shared_ptr<object> CreateFunction(FuncX func, const string & signatu
 
 static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
 {
-	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAst(arg, scope) : arg->ToLispVariant();
+	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAstToValue(arg, scope) : arg->ToLispVariant();
 }
 
 static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name, std::shared_ptr<LispScope> scopeToSet)
@@ -256,7 +256,7 @@ static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::share
 	{
 		throw LispException("Symbol expected", scope.get());
 	}
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	var ret = std::make_shared<object>(*value);
 	(*scopeToSet)[symbol->ToString()] = ret;
 	return std::make_shared<LispVariant>(ret);
@@ -1017,7 +1017,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
-		list.Add(std::make_shared<object>(*(function.Function(args, scope))));
+		list.Add(std::make_shared<object>(*LispInterpreter::ToValue(function.Function(args, scope))));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
 	return result;
@@ -1038,8 +1038,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
 		args.push_back(std::make_shared<object>(*result));		
-		var x = *(function.Function(args, scope));
-		result = std::make_shared<LispVariant>(x);
+		result = LispInterpreter::ToValue(function.Function(args, scope));
 	}
 	return result;
 }
@@ -1344,7 +1343,7 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 {
 	CheckArgs(LispEnvironment::Apply, 2, args, scope);
 
-	var fcn = LispInterpreter::EvalAst(args[0], scope);
+	var fcn = LispInterpreter::EvalAstToValue(args[0], scope);
 
 	const LispVariant & arguments = args[1]->ToLispVariantRef();
 
@@ -1483,7 +1482,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 	var result = initial;
 	for(var arg : args)
 	{
-		bool value = LispInterpreter::EvalAst(arg, scope)->BoolValue();
+		bool value = LispInterpreter::EvalAstToValue(arg, scope)->BoolValue();
 		result = func(result, value);
 		if (initial)
 		{ 
@@ -1533,8 +1532,8 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 	scope->NeedsLValue = true;
 	var symbol = EvalArgIfNeeded(args[0], scope);
 	scope->NeedsLValue = originalNeedsLValue;
-	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var symbolName = symbol->ToString();
+	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	if (symbol->IsLValue())
 	{
 		std::function<void(std::shared_ptr<object>)> action = symbol->Value->ToSetterAction();
@@ -1603,7 +1602,7 @@ std::shared_ptr<object> UnQuoteIfNeeded(std::shared_ptr<object> item, bool & isS
 			if (value.IsList())
 			{
 				std::shared_ptr<object> pObj = std::make_shared<object>(value.ListValueRef());
-				return LispInterpreter::EvalAst(pObj, scope)->Value;
+				return LispInterpreter::EvalAstToValue(pObj, scope)->Value;
 			}
 			else
 			{
@@ -1668,7 +1667,7 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 			const LispVariant & variant = item1->ToLispVariantRef();
 			if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
 			{
-				var evalResult = LispInterpreter::EvalAst(item2, scope);
+				var evalResult = LispInterpreter::EvalAstToValue(item2, scope);
 				splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
 				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
 				return std::make_shared<object>(*evalResult);
@@ -1730,7 +1729,7 @@ static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<ob
 		CheckArgs(If, -1, args, scope);
 	}
 
-	var passed = LispInterpreter::EvalAst(args[0], scope)->BoolValue();
+	var passed = LispInterpreter::EvalAstToValue(args[0], scope)->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
 	return LispInterpreter::EvalAst(passed ? args[1] : elseCode, scope);
 }
@@ -1740,7 +1739,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 	CheckArgs(While, 2, args, scope);
 
 	var result = std::make_shared<LispVariant>();
-	var condition = LispInterpreter::EvalAst(args[0], scope);
+	var condition = LispInterpreter::EvalAstToValue(args[0], scope);
 	while (condition->ToBool())
 	{
 		result = LispInterpreter::EvalAst(args[1], scope);
@@ -1748,7 +1747,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 		{
 			break;
 		}
-		condition = LispInterpreter::EvalAst(args[0], scope);
+		condition = LispInterpreter::EvalAstToValue(args[0], scope);
 	}
 	return result;
 }
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index e9641d3..f811177 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -71,6 +71,16 @@ namespace CppLisp
 		return astWithResolvedValues;
 	}
 
+	std::shared_ptr<LispVariant> LispInterpreter::ToValue(std::shared_ptr<LispVariant> result)
+	{
+		return result != null ? result : std::make_shared<LispVariant>(LispType::_Undefined);
+	}
+
+	std::shared_ptr<LispVariant> LispInterpreter::EvalAstToValue(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
+	{
+		return ToValue(EvalAst(ast, scope));
+	}
+
 	std::shared_ptr<LispVariant> LispInterpreter::EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
 	{
 		if (ast.get() == null)
@@ -175,7 +185,7 @@ namespace CppLisp
 		{
 			var needEvaluation = (arrAstWithResolvedValues[i]->IsList() /*is IEnumerable<object>*/) && !functionWrapper.IsSpecialForm();
 
-			var result = needEvaluation ? std::make_shared<object>(*EvalAst(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
+			var result = needEvaluation ? std::make_shared<object>(*EvalAstToValue(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
 			//var result = needEvaluation ? EvalAst(arrAstWithResolvedValues[i], scope)->Value : arrAstWithResolvedValues[i];
 
 			// process statemens like this: `,@l  with l = (1 2 3)
@@ -285,7 +295,7 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				var processedAst = ConvertLispVariantListToListIfNeeded(EvalAst(astWithReplacedArguments, globalScope)->Value);
+				var processedAst = ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*EvalAstToValue(astWithReplacedArguments, globalScope)));
 				return std::make_shared<object>(*processedAst);
 			}
 		}
diff --git a/CppLisp/CppLispInterpreter/Interpreter.h b/CppLisp/CppLispInterpreter/Interpreter.h
index 07bfaca..39adae2 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.h
+++ b/CppLisp/CppLispInterpreter/Interpreter.h
@@ -73,6 +73,16 @@ namespace CppLisp
         /// <exception cref="System.Exception">Unexpected macro modus!</exception>
 		/*public*/ static std::shared_ptr<LispVariant> EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
 
+		/// <summary>
+		/// Evaluates the given ast, the result is never null (undefined for forms without a value, like an if without else).
+		/// </summary>
+		/*public*/ static std::shared_ptr<LispVariant> EvalAstToValue(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
+
+		/// <summary>
+		/// Returns the given result or undefined if there is no result.
+		/// </summary>
+		/*public*/ static std::shared_ptr<LispVariant> ToValue(std::shared_ptr<LispVariant> result);
+
 #ifdef ENABLE_COMPILE_TIME_MACROS 
 
 		/*public*/ static std::shared_ptr<object> ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope);
-- 
2.43.0


From a1b8450a3947733bd14582be0fca9fe9cb8ca263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 11/45] fix: dictionaries accept every value as key and as
 value and check their argument

---
 CppLisp/CppLispInterpreter/Environment.cpp | 33 +++++++++----
 CppLisp/CppLispInterpreter/Variant.cpp     | 57 +++++++++++++++++++++-
 CppLisp/CppLispInterpreter/cstypes.h       | 13 +++++
 3 files changed, 92 insertions(+), 11 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 6ef2618..2e236a9 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1389,6 +1389,16 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	return result;
 }
 
+static Dictionary<LispVariant, std::shared_ptr<object>> & CheckForDictionary(const string & functionName, std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
+{
+	const LispVariant & value = arg->ToLispVariantRef();
+	if (!value.IsNativeObject() || !value.Value->IsDictionary())
+	{
+		throw LispException("No dictionary in " + functionName, scope.get());
+	}
+	return value.Value->ToDictionary();
+}
+
 static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("make-dict", 0, args, scope);
@@ -1400,10 +1410,11 @@ static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<ob
 {
 	CheckArgs("dict-set", 3, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-set", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
-	dict[key] = value->Value;
+	// the stored key must not change when the list used as key is modified
+	dict[key.IsList() && !key.IsNil() ? LispVariant(LispType::_List, std::make_shared<object>(key.ListValueRef())) : key] = std::make_shared<object>(*value);
 
 	return value;
 }
@@ -1412,7 +1423,7 @@ static std::shared_ptr<LispVariant> DictGet(const std::vector<std::shared_ptr<ob
 {
 	CheckArgs("dict-get", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-get", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key) ? dict[key] : std::make_shared<object>(object());
 
@@ -1423,7 +1434,7 @@ static std::shared_ptr<LispVariant> DictRemove(const std::vector<std::shared_ptr
 {
 	CheckArgs("dict-remove", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-remove", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var ok = dict.Remove(key);
 
@@ -1434,7 +1445,7 @@ static std::shared_ptr<LispVariant> DictKeys(const std::vector<std::shared_ptr<o
 {
 	CheckArgs("dict-keys", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-keys", args[0], scope);
 	IEnumerable<std::shared_ptr<object>> result;
 	for (var elem : dict.GetKeys())
 	//foreach(var key in nativeDict.Keys)
@@ -1449,7 +1460,7 @@ static std::shared_ptr<LispVariant> DictClear(const std::vector<std::shared_ptr<
 {
 	CheckArgs("dict-clean", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-clean", args[0], scope);
 	dict.Clear();
 
 	return std::make_shared<LispVariant>();
@@ -1459,7 +1470,7 @@ static std::shared_ptr<LispVariant> DictContainsKey(const std::vector<std::share
 {
 	CheckArgs("dict-contains-key", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-contains-key", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key);
 
@@ -1470,9 +1481,13 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 {
 	CheckArgs("dict-contains-value", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-contains-value", args[0], scope);
 	var value = args[1]->ToLispVariant();
-	var result = dict.ContainsValue(value->Value);
+	var result = false;
+	for (auto & item : dict)
+	{
+		result = result || LispVariant::EqualOp(LispVariant(item.second), *value);
+	}
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(result));
 }
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 2d31c3d..2006a94 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -29,6 +29,59 @@
 
 #include <math.h>
 
+namespace CppLisp
+{
+	// values of different kinds are ordered by their kind
+	static int GetKeyKind(const LispVariant & value)
+	{
+		if (value.IsNumber())
+		{
+			return value.IsDouble() && value.DoubleValue() != value.DoubleValue() ? -2 : -1;
+		}
+		return value.IsString() ? -3 : (int)value.Type;
+	}
+
+	static int CompareKeys(const LispVariant & l, const LispVariant & r)
+	{
+		const int leftKind = GetKeyKind(l);
+		const int rightKind = GetKeyKind(r);
+		if (leftKind != rightKind)
+		{
+			return leftKind < rightKind ? -1 : 1;
+		}
+		if (leftKind == -1)
+		{
+			return l.ToDouble() < r.ToDouble() ? -1 : (r.ToDouble() < l.ToDouble() ? 1 : 0);
+		}
+		if (l.IsBool() || l.IsString() || l.IsSymbol())
+		{
+			return string::CompareOrdinal(l.ToString(), r.ToString());
+		}
+		if (l.IsList() && !l.IsNil())
+		{
+			const IEnumerable<std::shared_ptr<object>> & left = l.ListValueRef();
+			const IEnumerable<std::shared_ptr<object>> & right = r.ListValueRef();
+			for (size_t i = 0; i < left.Count() && i < right.Count(); i++)
+			{
+				const int result = CompareKeys(LispVariant(left[i]), LispVariant(right[i]));
+				if (result != 0)
+				{
+					return result;
+				}
+			}
+			return left.Count() < right.Count() ? -1 : (left.Count() > right.Count() ? 1 : 0);
+		}
+		// all other values are identified by their object
+		const std::less<const object *> lessPtr = std::less<const object *>();
+		return lessPtr(l.Value.get(), r.Value.get()) ? -1 : (lessPtr(r.Value.get(), l.Value.get()) ? 1 : 0);
+	}
+}
+
+bool std::less<CppLisp::LispVariant>::operator()(const CppLisp::LispVariant & l, const CppLisp::LispVariant & r) const
+{
+	return CppLisp::CompareKeys(l, r) < 0;
+}
+
 namespace CppLisp
 {
 	double LispVariant::Tolerance = 1e-8;
@@ -774,7 +827,7 @@ namespace CppLisp
 					result += ", ";
 				}
 
-				result += "[" + GetNativeObjectStringRepresentation(element.first.Value) + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
+				result += "[" + element.first.ToStringDebugger() + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
 			}
 
 			result = "{ " + result + " }";
@@ -828,7 +881,7 @@ namespace CppLisp
 
 	bool LispVariant::operator==(const LispVariant & r) const
 	{
-		return *Value == *(r.Value);
+		return EqualOp(*this, r);
 	}
 
 	bool LispVariant::operator!=(const LispVariant & other) const
diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index ad75a7b..b238e5f 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -47,7 +47,20 @@ namespace CppLisp
 	class LispScope;
 	class LispVariant;
 	class object;
+}
+
+namespace std
+{
+	// total order of all values, used for the keys of dictionaries
+	template <>
+	struct less<CppLisp::LispVariant>
+	{
+		bool operator()(const CppLisp::LispVariant & l, const CppLisp::LispVariant & r) const;
+	};
+}
 
+namespace CppLisp
+{
 	typedef std::function<void()> Action;
 	typedef std::function<std::shared_ptr<LispVariant>(const std::vector<std::shared_ptr<object>> &, std::shared_ptr<LispScope>)> FuncX;
 
-- 
2.43.0


From fcb36572ea7f1f5fcba35f2ee0371b1ffcf1456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 12/45] fix: macro and function definitions check their forms,
 only symbols are macro parameters

---
 CppLisp/CppLispInterpreter/Environment.cpp | 22 ++++++++++++++--------
 CppLisp/CppLispInterpreter/Interpreter.cpp |  9 +++++++--
 CppLisp/CppLispInterpreter/Variant.cpp     |  2 +-
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 2e236a9..b64af7a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1561,6 +1561,8 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 	return value;
 }
 
+static const IEnumerable<std::shared_ptr<object>> & GetEnumerableFromArgs(std::shared_ptr<object> args);
+
 static std::shared_ptr<LispVariant> definemacroevaluate_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs(DefineMacroEval, 3, args, scope);
@@ -1571,7 +1573,7 @@ static std::shared_ptr<LispVariant> definemacroevaluate_form(const std::vector<s
 		var macros = dict[LispEnvironment::Macros]->GetLispScopeRef() /*as LispScope*/;
 		if (macros != null)
 		{
-			(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroRuntimeEvaluate(std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()), std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[2]->ToEnumerableOfObjectRef())));
+			(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroRuntimeEvaluate(std::make_shared<IEnumerable<std::shared_ptr<object>>>(GetEnumerableFromArgs(args[1])), std::make_shared<IEnumerable<std::shared_ptr<object>>>(GetEnumerableFromArgs(args[2]))));
 		}
 	}
 
@@ -1590,7 +1592,7 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 	{
 		// allow macros in macros --> recursive call for ExpandMacros()
 		std::shared_ptr<object> result = LispInterpreter::ExpandMacros(std::make_shared<object>(*LispEnvironment::GetExpression(args[2])), scope);
-		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), std::make_shared<IEnumerable<std::shared_ptr<object>>>(result->ToEnumerableOfObjectRef())));
+		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), std::make_shared<IEnumerable<std::shared_ptr<object>>>(result != null ? result->ToListRef() : IEnumerable<std::shared_ptr<object>>())));
 	}
 
 	return null;
@@ -1738,11 +1740,7 @@ std::shared_ptr<LispVariant> quasiquote_form(const std::vector<std::shared_ptr<o
 
 static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	if (!(args.size() == 2 || args.size() == 3))
-	{
-		// throw exception
-		CheckArgs(If, -1, args, scope);
-	}
+	CheckOptionalArgs(If, 2, 3, args, scope);
 
 	var passed = LispInterpreter::EvalAstToValue(args[0], scope)->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
@@ -1803,6 +1801,10 @@ static IEnumerable<std::shared_ptr<object>> VectorToList(const std::vector<std::
 
 std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	if (args.size() < 2)
+	{
+		CheckArgs(Fn, 2, args, scope);
+	}
 	var name = /*(string)*/scope->UserData.get()!=null ? scope->UserData->ToString() : "";
 	var moduleName = scope->ModuleName;
 	var userDoc = scope->UserDoc;
@@ -1890,7 +1892,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 			{
 				scope->GlobalScope->Output->WriteLine(ex.ToString());
 
-				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
+				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/LispEnvironment::GetExpression(args[1]) /*new List<object> { info.Item2 }*/);
 			}
 
 			localScope->PopNextScope();
@@ -1931,6 +1933,10 @@ static const IEnumerable<std::shared_ptr<object>> & GetEnumerableFromArgs(std::s
 			return tempVal.ListValueRef();
 		}
 	}
+	if (!args->IsList() && !args->IsIEnumerableOfObject())
+	{
+		throw LispExceptionBase("List expected, found " + args->ToString());
+	}
 	return args->ToEnumerableOfObjectRef();
 }
 
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index f811177..b9550cb 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -269,9 +269,10 @@ namespace CppLisp
 		var functionName = function->ToString();
 		if (globalScope != null && globalScope->ContainsKey(functionName))
 		{
-			var fcn = (*globalScope)[functionName]->ToLispVariantRef().FunctionValue();
-			if (fcn.IsEvalInExpand())
+			var value = (*globalScope)[functionName];
+			if (value->IsLispVariant() && value->ToLispVariantRef().IsFunction() && value->ToLispVariantRef().FunctionValue().IsEvalInExpand())
 			{
+				var fcn = value->ToLispVariantRef().FunctionValue();
 				var args = std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList);
 				args->RemoveAt(0);
 
@@ -387,6 +388,10 @@ namespace CppLisp
 		for (var formalArgument : *formalArguments)
 		{
 			std::shared_ptr<object> value;
+			if ((size_t)i >= astAsList->Count())
+			{
+				throw LispException("Bad argument count in macro " + astAsList->First()->ToString() + ", has " + std::to_string(astAsList->Count() - 1) + " expected " + std::to_string(formalArguments->Count()), scope.get());
+			}
 			auto elem = (*astAsList)[i];
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
 			{
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 2006a94..392f66a 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -378,7 +378,7 @@ namespace CppLisp
 		if (other->IsLispVariant())
 		{
 			const LispVariant & otherVariant = other->ToLispVariantRef();
-			return Value->Equals(*(otherVariant.Value));
+			return otherVariant.IsSymbol() && ToString() == otherVariant.ToString();
 		}
 		return false;
 	}
-- 
2.43.0


From 9efbd6eeeb7d0117e522e986c0723c4c7d2ddb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 13/45] fix: functions for arguments, tracing, return and
 documentation do not crash without their context

---
 CppLisp/CppLispInterpreter/Environment.cpp | 35 +++++++++++++++++-----
 CppLisp/CppLispInterpreter/Scope.cpp       |  4 +++
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b64af7a..925e59e 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -119,6 +119,11 @@ bool WriteTextFile(const std::string & fileName, const std::string & content)
 	return ofs.good();
 }
 
+static string GetTraceBuffer(std::shared_ptr<LispScope> scope)
+{
+	return scope->ContainsKey(Tracebuffer) ? (*scope)[Tracebuffer]->ToString() : string::Empty;
+}
+
 static string GetStringRepresentation(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & separator = " ")
 {
 	var text = string::Empty;
@@ -132,8 +137,7 @@ static string GetStringRepresentation(const std::vector<std::shared_ptr<object>>
 	}
 	if (scope->ContainsKey(Traceon) && (bool)(*scope)[Traceon])
 	{
-		var buffer = /*(StringBuilder)*/(*scope)[Tracebuffer];
-		string temp = buffer->ToString();
+		string temp = GetTraceBuffer(scope);
 		temp += text;
 		(*scope)[Tracebuffer] = std::make_shared<object>(temp);
 		//old: buffer.Append(text);
@@ -320,7 +324,7 @@ static std::shared_ptr<LispVariant> DoSearchDocumentation(const std::vector<std:
 		{
 			help += scope->GetFunctionsHelpFormated(item->ToString(), select);
 			// search for functions in all loaded modules
-			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Macros])->GetLispScopeRef();
+			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef();
 			for(/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> module : *tempScope)
 			{
 				help += module.second->GetLispScopeRef()->GetFunctionsHelpFormated(item->ToString(), select);
@@ -383,6 +387,8 @@ static std::shared_ptr<LispVariant> NeedLValue(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("trace", 1, args, scope);
+
 	var status = args[0]->ToLispVariantRef();
 	(*scope)[Traceon] = std::make_shared<object>(status.BoolValue());
 	return std::make_shared<LispVariant>(std::make_shared<object>(status.BoolValue()));
@@ -390,7 +396,7 @@ static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> GetTracePrint(const std::vector<std::shared_ptr<object>> & /*args*/, std::shared_ptr<LispScope> scope)
 {
-	string buffer = (*scope)[Tracebuffer]->ToString(); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
+	string buffer = GetTraceBuffer(scope); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
 	return std::make_shared<LispVariant>(std::make_shared<object>(buffer));
 }
 
@@ -431,8 +437,10 @@ static std::shared_ptr<LispVariant> CurrentTickCount(const std::vector<std::shar
 	return FuelFuncWrapper0<int>(args, scope, "tickcount", []() -> int { return (int)GetTickCount(); });
 }
 
-static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("sleep", 1, args, scope);
+
 	var timeInMs = ((LispVariant)args[0]).ToInt();
 	std::this_thread::sleep_for(std::chrono::milliseconds(timeInMs));
 	return std::make_shared<LispVariant>(LispVariant());
@@ -607,6 +615,8 @@ static std::shared_ptr<LispVariant> Nop(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> Return(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("return", 1, args, scope);
+
 	scope->IsInReturn = true;
 	return std::make_shared<LispVariant>(LispVariant(args[0]));
 }
@@ -1313,16 +1323,25 @@ static std::shared_ptr<LispVariant> ConvertToString(const std::vector<std::share
 	return std::make_shared<LispVariant>(LispType::_String, std::make_shared<object>(value));
 }
 
+static const IEnumerable<std::shared_ptr<object>> & GetFunctionArgs(std::shared_ptr<LispScope> scope)
+{
+	if (!scope->ContainsKey(ArgsMeta))
+	{
+		throw LispException("No arguments available outside of a function", scope.get());
+	}
+	return (*scope)[ArgsMeta]->ToListRef();
+}
+
 static std::shared_ptr<LispVariant> ArgsCountFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)(*scope)[ArgsMeta]->ToListRef().Count();  });
+	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)GetFunctionArgs(scope).Count();  });
 }
 
 static std::shared_ptr<LispVariant> ArgsFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("args", 0, args, scope);
 
-	var array = (*scope)[ArgsMeta]->ToListRef()/*.ToArray()*/;
+	var array = GetFunctionArgs(scope)/*.ToArray()*/;
 	return std::make_shared<LispVariant>(std::make_shared<object>(array));
 }
 
@@ -1331,7 +1350,7 @@ static std::shared_ptr<LispVariant> ArgFcn(const std::vector<std::shared_ptr<obj
 	CheckArgs("arg", 1, args, scope);
 
 	var index = args[0]->ToLispVariantRef().IntValue();
-	const IEnumerable<std::shared_ptr<object>> & array = (*scope)[ArgsMeta]->ToListRef();
+	const IEnumerable<std::shared_ptr<object>> & array = GetFunctionArgs(scope);
 	if (index >= 0 && index < (int)array.size())
 	{
 		return std::make_shared<LispVariant>(array[index]);
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 6935321..8b6d191 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -253,6 +253,10 @@ namespace CppLisp
 		//foreach (var key in Keys)
 		for (const string & key : GetKeys())
 		{
+			if (!(*this)[key]->ToLispVariantRef().IsFunction())
+			{
+				continue;
+			}
 			if (select != null)
 			{
 				if (select(key, functionName))
-- 
2.43.0


From 0704da01fa7103f3797b20485325351b260e05ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 14/45] fix: map, reduce and apply pass list elements as data

---
 CppLisp/CppLispInterpreter/Environment.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 925e59e..d945910 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1026,7 +1026,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		list.Add(std::make_shared<object>(*LispInterpreter::ToValue(function.Function(args, scope))));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
@@ -1046,7 +1046,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		args.push_back(std::make_shared<object>(*result));		
 		result = LispInterpreter::ToValue(function.Function(args, scope));
 	}
@@ -1369,7 +1369,13 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 	if (arguments.IsList())
 	{
 		const IEnumerable<std::shared_ptr<object>> & argumentsArray = arguments.ListValueRef();
-		var result = fcn->FunctionValue().Function(argumentsArray, scope);
+		// the arguments are data and not code
+		std::vector<std::shared_ptr<object>> callArgs;
+		for (var elem : argumentsArray)
+		{
+			callArgs.push_back(std::make_shared<object>(LispVariant(elem)));
+		}
+		var result = fcn->FunctionValue().Function(callArgs, scope);
 		return result;
 	}
 
-- 
2.43.0


From f66e098ae089d6af500ee9bdeff5446601abcf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 15/45] fix: a failing evaluation restores the state of its
 scope

---
 CppLisp/CppLispInterpreter/Environment.cpp | 62 ++++++++++++++++------
 CppLisp/CppLispInterpreter/Lisp.cpp        |  1 +
 2 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index d945910..dded683 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -251,6 +251,34 @@ static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg,
 	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAstToValue(arg, scope) : arg->ToLispVariant();
 }
 
+// restores a value when leaving the block, also if an error occurred
+template <class T>
+class RestoreValue
+{
+private:
+	T & m_Value;
+	const T m_OriginalValue;
+
+public:
+	RestoreValue(T & value)
+		: m_Value(value),
+		  m_OriginalValue(value)
+	{
+	}
+
+	~RestoreValue()
+	{
+		m_Value = m_OriginalValue;
+	}
+};
+
+static std::shared_ptr<LispVariant> EvalLValue(std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope, bool needsLValue)
+{
+	const RestoreValue<bool> originalNeedsLValue(scope->NeedsLValue);
+	scope->NeedsLValue = needsLValue;
+	return EvalArgIfNeeded(arg, scope);
+}
+
 static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name, std::shared_ptr<LispScope> scopeToSet)
 {
 	CheckArgs(name, 2, args, scope);
@@ -307,11 +335,10 @@ static std::shared_ptr<LispVariant> Help(const std::vector<std::shared_ptr<objec
 static std::shared_ptr<LispVariant> DumpDocumentation(std::shared_ptr<LispScope> scope, Action dump)
 {
 	//string text; // var text = new StringBuilder();
-	var tempOutputWriter = scope->GlobalScope->Output;
+	const RestoreValue<std::shared_ptr<TextWriter>> tempOutputWriter(scope->GlobalScope->Output);
 	scope->GlobalScope->Output = std::make_shared<TextWriter>(true); // StringWriter(text);
 	dump();
 	string text = scope->GlobalScope->Output->GetContent();
-	scope->GlobalScope->Output = tempOutputWriter;
 	return std::make_shared<LispVariant>(std::make_shared<object>(text));
 }
 
@@ -597,7 +624,15 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			var importScope = std::make_shared<LispScope>("import " + fileName, scope->GlobalScope, std::make_shared<string>(fileName), scope->Output, scope->Input);
 			scope->PushNextScope(importScope);
 
-			result = Lisp::Eval(code, importScope, fileName);
+			try
+			{
+				result = Lisp::Eval(code, importScope, fileName);
+			}
+			catch (...)
+			{
+				scope->PopNextScope();
+				throw;
+			}
 
 			// add new module to modules scope
 			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
@@ -1290,11 +1325,7 @@ static std::shared_ptr<LispVariant> RValue(const std::vector<std::shared_ptr<obj
 {
 	CheckArgs("rval", 1, args, scope);
 
-	var originalLValue = scope->NeedsLValue;
-	scope->NeedsLValue = false;
-	var value = EvalArgIfNeeded(args[0], scope);
-	scope->NeedsLValue = originalLValue;
-	return value;
+	return EvalLValue(args[0], scope, false);
 }
 
 static std::shared_ptr<LispVariant> SymbolFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -1406,11 +1437,12 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	CheckArgs("evalstr", 1, args, scope);
 
 	const LispVariant & variant = args[0]->ToLispVariantRef();
-	var tempModuleName = scope->ModuleName;
+	const string code = variant.ToString();
+	// restored also if the evaluation fails
+	const RestoreValue<string> moduleName(scope->ModuleName);
+	const RestoreValue<bool> isInEval(scope->IsInEval);
 	scope->IsInEval = true;
-	var result = Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
-	scope->IsInEval = false;
-	scope->ModuleName = tempModuleName;
+	var result = Lisp::Eval(code, scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + code, scope->Tracing);
 	return result;
 }
 
@@ -1568,10 +1600,7 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 {
 	CheckArgs(Setf, 2, args, scope);
 
-	var originalNeedsLValue = scope->NeedsLValue;
-	scope->NeedsLValue = true;
-	var symbol = EvalArgIfNeeded(args[0], scope);
-	scope->NeedsLValue = originalNeedsLValue;
+	var symbol = EvalLValue(args[0], scope, true);
 	var symbolName = symbol->ToString();
 	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	if (symbol->IsLValue())
@@ -2013,6 +2042,7 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 	UpdateDocumentationInformationAtScope(args, scope);
 
 	var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
+	const RestoreValue<std::shared_ptr<object>> userData(scope->UserData);
 	scope->UserData = std::make_shared<object>(EvalArgIfNeeded(args[0], scope)->ToString());
 
 	std::vector<std::shared_ptr<object>> tempArgs;
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 197997e..232a031 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -117,6 +117,7 @@ namespace CppLisp
 		var currentScope = scope == null ? LispEnvironment::CreateDefaultScope() : scope;
 		currentScope->ModuleName = moduleName;
 		currentScope->Tracing = tracing;
+		currentScope->IsInReturn = false;
 		currentScope->Output = outp != null ? outp : (scope != null ? scope->Output : std::make_shared<TextWriter>());
 		currentScope->Input = inp != null ? inp : (scope != null ? scope->Input : std::make_shared<TextReader>());
 		RegisterNativeObjects(/*nativeItems,*/ *currentScope);
-- 
2.43.0


From 8fffddd70db6255d3c64be4478c20d2acce15eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 16/45] fix: integer and decimal literals out of range are read
 as doubles, names like inf and nan stay symbols

---
 CppLisp/CppLispInterpreter/Token.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Token.cpp b/CppLisp/CppLispInterpreter/Token.cpp
index be1e978..63dd3bc 100644
--- a/CppLisp/CppLispInterpreter/Token.cpp
+++ b/CppLisp/CppLispInterpreter/Token.cpp
@@ -54,24 +54,22 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	bool Double_TryParse(const string & txt, const string & /*NumberStyles_Any*/, const string & /*CultureInfo_InvariantCulture*/, double & doubleValue)
 	{
-		try
-		{
-			size_t errPos;
-			doubleValue = std::stod(txt, &errPos);
-			if (errPos < txt.length())
-			{
-				return false;
-			}
-			return true;
-		}
-		catch (const std::invalid_argument &)
+		// only decimal numbers, but not names like inf or nan and no hexadecimal numbers
+		if (txt.empty() || txt.find_first_not_of("0123456789+-.eE") != std::string::npos)
 		{
 			return false;
 		}
+		char * end = null;
+		doubleValue = strtod(txt.c_str(), &end);
+		return end == txt.c_str() + txt.length();
 	}
 
 	LispToken::LispToken(const string & text, size_t start, size_t stop, size_t lineNo)
-- 
2.43.0


From 778f1c2df12a91e3af54840d904c26f52de76785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 17/45] fix: tokenizer keeps symbols before quotes and strings,
 empty comments end at their line, open strings are errors

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 49 ++++++++++++++----------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 902e666..df74204 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -47,6 +47,21 @@ namespace CppLisp
 			currentToken = string::Empty;
 			currentTokenStartPos = pos + 1;
 		};
+		std::function<void(size_t)> addSymbolIfNeeded = [&isInSymbol, &currentToken, &lineCount, &addToken](size_t pos)
+		{
+			if (isInSymbol && currentToken != string::Empty)
+			{
+				addToken(currentToken, pos, lineCount);
+			}
+			isInSymbol = false;
+		};
+		std::function<void()> startSymbolIfNeeded = [&isInSymbol, &isInString]()
+		{
+			if (!isInSymbol && !isInString)
+			{
+				isInSymbol = true;
+			}
+		};
 
 		for (size_t i = 0; i < code.Length(); i++)
 		{
@@ -57,9 +72,9 @@ namespace CppLisp
 				{
 					currentToken += ch;
 				}
-				else if (isInSymbol)
+				else
 				{
-					addToken(currentToken, i, lineCount);
+					addSymbolIfNeeded(i);
 				}
 				wasLastBackslash = false;
 				if (ch == '\n')
@@ -69,6 +84,7 @@ namespace CppLisp
 			}
 			else if (ch == '\\')
 			{
+				startSymbolIfNeeded();
 				if (wasLastBackslash)
 				{
 					currentToken += ch;
@@ -85,13 +101,9 @@ namespace CppLisp
 				{
 					currentToken += ch;
 				}
-				else if (isInSymbol)
-				{
-					addToken(currentToken, i, lineCount);
-					addToken(string::Empty + string(ch), i, lineCount);
-				}
 				else
 				{
+					addSymbolIfNeeded(i);
 					addToken(string::Empty + string(ch), i, lineCount);
 				}
 				wasLastBackslash = false;
@@ -102,13 +114,9 @@ namespace CppLisp
 				{
 					currentToken += ch;
 				}
-				else if (isInSymbol)
-				{
-					addToken(currentToken, i, lineCount);
-					i = ProcessComment(code, i, lineCount, ch, addToken);
-				}
 				else
 				{
+					addSymbolIfNeeded(i);
 					i = ProcessComment(code, i, lineCount, ch, addToken);
 				}
 				wasLastBackslash = false;
@@ -123,7 +131,8 @@ namespace CppLisp
 				}
 				else
 				{
-					if (code[i + 1] == '@')
+					addSymbolIfNeeded(i);
+					if (ch == ',' && code[i + 1] == '@')
 					{
 						// process unquotesplicing
 						string s = string::Empty;
@@ -143,6 +152,7 @@ namespace CppLisp
 			{
 				if (wasLastBackslash)
 				{
+					startSymbolIfNeeded();
 					currentToken += ch;
 				}
 				else if (isInString)
@@ -153,6 +163,7 @@ namespace CppLisp
 				else
 				{
 					// start string
+					addSymbolIfNeeded(i);
 					isInString = true;
 					currentToken = string::Empty;
 				}
@@ -160,10 +171,7 @@ namespace CppLisp
 			}
 			else
 			{
-				if (!isInSymbol && !isInString)
-				{
-					isInSymbol = true;
-				}
+				startSymbolIfNeeded();
 				if (wasLastBackslash)
 				{
 					ch = ProcessCharAfterBackslash(ch);
@@ -172,10 +180,11 @@ namespace CppLisp
 				wasLastBackslash = false;
 			}
 		}
-		if (currentToken != string::Empty)
+		if (isInString)
 		{
-			addToken(currentToken, -1, lineCount);
+			throw LispExceptionBase("String not terminated");
 		}
+		addSymbolIfNeeded(code.Length());
 		return tokens;
 	}
 
@@ -208,7 +217,7 @@ namespace CppLisp
 	{
 		string rest = code.Substring(i);
 		size_t pos = rest.IndexOf("\n", "StringComparison.InvariantCulture");
-		if (pos > 0)
+		if (pos != std::string::npos)
 		{
 			newIndex = i + pos;
 			return rest.Substring(0, pos + 1);
-- 
2.43.0


From 1706777d8d5e3937c1ae2496520710ae03aef4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 18/45] fix: parser reports closing brackets and quotes without
 expression, quotes inside quotes are kept

---
 CppLisp/CppLispInterpreter/Parser.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 79e31d8..fead5ed 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -71,6 +71,10 @@ namespace CppLisp
 			}
 			else if (token->Type == LispTokenType::ListEnd)
 			{
+				if (listStack.empty())
+				{
+					throw LispException(BracketsOutOfBalance, token, moduleName);
+				}
 				var temp = current;
 				listStack.pop();
 				if (listStack.size() > 0)
@@ -101,6 +105,11 @@ namespace CppLisp
 				{
 					current->push_back/*Add*/(std::make_shared<object>(object(*quote)));
 				}
+				else if (!isToplevel)
+				{
+					parseResult = std::make_shared<object>(*quote);
+					return i;
+				}
 			}
 			else if (token->Type == LispTokenType::UnQuote || token->Type == LispTokenType::UnQuoteSplicing)
 			{
@@ -141,13 +150,16 @@ namespace CppLisp
 			}
 		}
 
-		if (isToplevel && tokens.size()>0)
+		if ((isToplevel || current == null) && tokens.size()>0)
 		{
 			std::shared_ptr<LispToken> token = tokens.back/*Last*/();
 			throw LispException(BracketsOutOfBalance, token, moduleName);
 		}
 
-		parseResult = std::make_shared<object>(*current);
+		if (current != null)
+		{
+			parseResult = std::make_shared<object>(*current);
+		}
 		return i;
 	}
 
-- 
2.43.0


From 28cb39071ccca33981f4f54c6afcb74ef836b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 19/45] fix: quasiquote processes lists of two elements,
 spliced arguments keep the following arguments

---
 CppLisp/CppLispInterpreter/Environment.cpp | 32 ++++++++++------------
 CppLisp/CppLispInterpreter/Interpreter.cpp | 13 ++++-----
 2 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index dded683..8db77e2 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1738,38 +1738,34 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 			const LispVariant & variant = item1->ToLispVariantRef();
 			if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
 			{
-				var evalResult = LispInterpreter::EvalAstToValue(item2, scope);
+				var evalResult = std::make_shared<LispVariant>(*LispInterpreter::EvalAstToValue(item2, scope));
 				splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
 				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
 				return std::make_shared<object>(*evalResult);
 			}
 		}
-		result.Add(item1);
-		result.Add(item2);
 	}
-	else
+
+	for (var itm : expr)
 	{
-		for (var itm : expr)
+		if (itm->IsIEnumerableOfObject() || itm->IsList())
 		{
-			if (itm->IsIEnumerableOfObject() || itm->IsList())
+			bool tempSplicing = false;
+			var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
+			if (tempSplicing)
 			{
-				bool tempSplicing = false;
-				var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
-				if (tempSplicing)
-				{
-					const LispVariant & variant = res->ToLispVariantRef();
-					result.AddRange(variant.ListValueRef());
-				}
-				else
-				{
-					result.Add(res);
-				}
+				const LispVariant & variant = res->ToLispVariantRef();
+				result.AddRange(variant.ListValueRef());
 			}
 			else
 			{
-				result.Add(itm);
+				result.Add(res);
 			}
 		}
+		else
+		{
+			result.Add(itm);
+		}
 	}
 	return std::make_shared<object>(result);
 }
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index b9550cb..907031b 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -179,7 +179,8 @@ namespace CppLisp
 #endif
 
 		// evaluate arguments, but allow recursive lists
-		std::vector<std::shared_ptr<object>> arguments(astWithResolvedValues->Count() - 1); // = new object[astWithResolvedValues->Count() - 1];
+		std::vector<std::shared_ptr<object>> arguments; // = new object[astWithResolvedValues->Count() - 1];
+		arguments.reserve(astWithResolvedValues->Count() - 1);
 		const std::vector<std::shared_ptr<object>> & arrAstWithResolvedValues = astWithResolvedValues->ToArray();
 		for (size_t i = 1; i < astWithResolvedValues->Count(); i++)
 		{
@@ -189,24 +190,22 @@ namespace CppLisp
 			//var result = needEvaluation ? EvalAst(arrAstWithResolvedValues[i], scope)->Value : arrAstWithResolvedValues[i];
 
 			// process statemens like this: `,@l  with l = (1 2 3)
-			if (result->IsLispVariant())
+			if (needEvaluation && result->IsLispVariant())
 			{
 				const LispVariant & variant = result->ToLispVariantRef();
 				if (variant.IsUnQuoted == LispUnQuoteModus::_UnQuoteSplicing && variant.IsList())
 				{
 					var lst = variant.ListValueRef();
-					arguments.resize(arguments.size() + lst.size() - 1);
 					for(var elem : lst)
 					{
-						arguments[i - 1] = elem;
-						i++;
+						arguments.push_back(elem);
 					}
 
-					break;
+					continue;
 				}
 			}
 
-			arguments[i - 1] = result;
+			arguments.push_back(result);
 		}
 
 #ifndef _DISABLE_DEBUGGER
-- 
2.43.0


From e25c0bc633d16d1e48a2e67e2fe12d76b6211477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 20/45] fix: shift counts, conversions of numbers and texts out
 of range are defined

---
 CppLisp/CppLispInterpreter/Environment.cpp | 21 ++++++++++++++++-----
 CppLisp/CppLispInterpreter/Variant.cpp     |  4 ++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 8db77e2..77d5853 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -753,7 +753,13 @@ static std::shared_ptr<LispVariant> ParseFloat(const std::vector<std::shared_ptr
 	double value;
 	try
 	{
-		value = std::stod(((LispVariant)args[0]).ToString());
+		size_t idx = 0;
+		string s = ((LispVariant)args[0]).ToString();
+		value = std::stod(s, &idx);
+		if (idx < s.size() || s.find_first_of("nNxX") != std::string::npos)
+		{
+			throw LispExceptionBase("format error");
+		}
 	}
 	catch (...)
 	{
@@ -773,6 +779,11 @@ static std::shared_ptr<LispVariant> ToInt(const std::vector<std::shared_ptr<obje
 	}
 	if (value.IsDouble())
 	{
+		// values which can not be represented as integer are undefined
+		if (!(value.DoubleValue() > -2147483649.0 && value.DoubleValue() < 2147483648.0))
+		{
+			return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
+		}
 		return std::make_shared<LispVariant>(std::make_shared<object>((int)value.DoubleValue()));
 	}
 	if (value.IsString())
@@ -783,7 +794,7 @@ static std::shared_ptr<LispVariant> ToInt(const std::vector<std::shared_ptr<obje
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1 : 0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -807,7 +818,7 @@ static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<ob
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1.0 : 0.0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> Search(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -980,12 +991,12 @@ static std::shared_ptr<LispVariant> Not(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> LeftShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() << arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>((int)((unsigned int)arg1.IntValue() << (arg2.IntValue() & 31)))); });
 }
 
 static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> (arg2.IntValue() & 31))); });
 }
 
 static std::shared_ptr<LispVariant> BinaryOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 392f66a..47ed0e5 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -225,6 +225,10 @@ namespace CppLisp
 		}
 		if (IsDouble())
 		{
+			if (!(DoubleValue() > -2147483649.0 && DoubleValue() < 2147483648.0))
+			{
+				throw CreateInvalidCastException("int", CppLisp::string::Format(CanNotConvertTo, TypeString(), "int"));
+			}
 			return (int)DoubleValue();
 		}
 		if (IsString())
-- 
2.43.0


From 798b0979998c4e14ff2a1d054d7aede980225c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 21/45] fix: infinite numbers are equal to themselves

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 47ed0e5..5562a2a 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -601,7 +601,7 @@ namespace CppLisp
 		}
 		if (l.IsDouble() || r.IsDouble())
 		{
-			return /*Math.A*/fabs(l.ToDouble() - r.ToDouble()) < Tolerance;
+			return l.ToDouble() == r.ToDouble() || /*Math.A*/fabs(l.ToDouble() - r.ToDouble()) < Tolerance;
 		}
 		if (l.IsInt() || r.IsInt())
 		{
-- 
2.43.0


From f2e1a67af0ef6fd10be3d4e05dd3d4891cd5c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 22/45] fix: a semicolon inside a string does not end a line

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index df74204..f1442ad 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -118,10 +118,10 @@ namespace CppLisp
 				{
 					addSymbolIfNeeded(i);
 					i = ProcessComment(code, i, lineCount, ch, addToken);
+					// comment ends always with new line
+					lineCount++;
 				}
 				wasLastBackslash = false;
-				// comment ends always with new line
-				lineCount++;
 			}
 			else if (ch == '\'' || ch == '`' || ch == ',')
 			{
-- 
2.43.0


From b3a2ce54d614f616effe1ea625cb83a6fa005531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 23/45] fix: nil inside of quoted code stays nil

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 907031b..96c92fe 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -241,7 +241,7 @@ namespace CppLisp
 		{
 			std::shared_ptr<LispVariant> variant = something->ToLispVariant();
 
-			if (variant.get() != null && variant->IsList())
+			if (variant.get() != null && variant->IsList() && !variant->IsNil())
 			{
 				return std::make_shared<object>(variant->ListValueRef());
 			}
-- 
2.43.0


From 36eed2d263c12eb97ad3aee68bcb3e5262f68001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 24/45] fix: names of enclosing functions hide global names
 when read, as they do for setf

---
 CppLisp/CppLispInterpreter/Scope.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 8b6d191..01fc683 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -102,17 +102,17 @@ namespace CppLisp
 			result = item->second;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in global scope
-		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
+		// then try to resolve in closure chain scope(s)
+		else if (IsInClosureChain(name, foundClosureScope, &value))
 		{
-			//result = (*GlobalScope)[name];
+			//result = (*foundClosureScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in closure chain scope(s)
-		else if (IsInClosureChain(name, foundClosureScope, &value))
+		// then try to resolve in global scope
+		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
 		{
-			//result = (*foundClosureScope)[name];
+			//result = (*GlobalScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-- 
2.43.0


From 331bf2237deb0a2c1f2a8932de4954d4d99d504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 25/45] fix: macro parameters are replaced in one step, so that
 names inside of arguments are not taken for parameters

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 42 +++++++++++-----------
 CppLisp/CppLispInterpreter/Interpreter.h   |  2 +-
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 96c92fe..b0dde6f 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -26,6 +26,8 @@
 #include "Interpreter.h"
 #include "Exception.h"
 
+#include <algorithm>
+
 namespace CppLisp
 {
 	std::shared_ptr<IEnumerable<std::shared_ptr<object>>> LispInterpreter::ResolveArgsInScopes(std::shared_ptr<LispScope> scope, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> astAsList, bool compile)
@@ -335,35 +337,33 @@ namespace CppLisp
 		return /*new*/ LispBreakpointPosition(-1, -1, -1);
 	}
 
-	std::shared_ptr<IEnumerable<std::shared_ptr<object>>> LispInterpreter::ReplaceSymbolWithValueInExpression(const LispVariant & symbol, std::shared_ptr<object> symbolValue, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, bool macroArgsReplace, /*ref*/ bool & replacedAnything)
+	// replaces all symbols in one step, symbols in the inserted values are not replaced again
+	std::shared_ptr<IEnumerable<std::shared_ptr<object>>> LispInterpreter::ReplaceSymbolsWithValuesInExpression(const std::vector<std::pair<LispVariant, std::shared_ptr<object>>> & replacements, std::shared_ptr<object> quotedMacroArgs, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, /*ref*/ bool & replacedAnything)
 	{
+		static const LispVariant quotedMacroArgsSymbol(LispType::_Symbol, std::make_shared<object>("quoted-macro-args"));
 		var ret = std::make_shared<IEnumerable<std::shared_ptr<object>>>();
 		for (var elem : *expression)
 		{
-			// is the current element the symbol which should be replaced? --> Yes
-			if (symbol.SymbolCompare(elem))
+			// replace (quoted-macro-args) --> '(<real_args>)
+			if (quotedMacroArgsSymbol.SymbolCompare(elem))
 			{
-				if (symbolValue->IsIEnumerableOfObject() && macroArgsReplace)
-				{
-					(*ret).AddRange(symbolValue->ToEnumerableOfObjectRef());
-				}
-				if (symbolValue->IsList() && macroArgsReplace)
-				{
-					(*ret).AddRange(*(symbolValue->ToList()));
-				}
-				else
-				{
-					(*ret).Add(symbolValue);
-				}
+				(*ret).AddRange(quotedMacroArgs->ToEnumerableOfObjectRef());
+				continue;
+			}
+			// is the current element a symbol which should be replaced?
+			var replacement = std::find_if(replacements.begin(), replacements.end(), [elem](const std::pair<LispVariant, std::shared_ptr<object>> & item) -> bool { return item.first.SymbolCompare(elem); });
+			if (replacement != replacements.end())
+			{
+				(*ret).Add(replacement->second);
 				replacedAnything = true;
 			}
 			// is it an expression? --> recursive call
 			else if (LispEnvironment::IsExpression(elem))
 			{
-				std::shared_ptr<IEnumerable<std::shared_ptr<object>>> temp = ReplaceSymbolWithValueInExpression(symbol, symbolValue, LispEnvironment::GetExpression(elem)/*.ToArray()*/, macroArgsReplace, /*ref*/ replacedAnything);
+				std::shared_ptr<IEnumerable<std::shared_ptr<object>>> temp = ReplaceSymbolsWithValuesInExpression(replacements, quotedMacroArgs, LispEnvironment::GetExpression(elem)/*.ToArray()*/, /*ref*/ replacedAnything);
 				(*ret).Add(std::make_shared<object>(*temp));
 			}
-			// current element is not the symbol which should by replaced !
+			// current element is not a symbol which should by replaced !
 			else
 			{
 				ret->Add(elem);
@@ -374,15 +374,13 @@ namespace CppLisp
 
 	std::shared_ptr<IEnumerable<std::shared_ptr<object>>> LispInterpreter::ReplaceFormalArgumentsInExpression(std::shared_ptr<IEnumerable<std::shared_ptr<object>>> formalArguments, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> astAsList, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, std::shared_ptr<LispScope> scope, /*ref*/ bool & anyMacroReplaced)
 	{
-		// replace (quoted-macro-args) --> '(<real_args>)
 		int i = 1;
-		bool replaced = false;
+		std::vector<std::pair<LispVariant, std::shared_ptr<object>>> replacements;
 		IEnumerable<std::shared_ptr<object>> realArguments = astAsList->Skip(1)/*.ToList()*/;
 		IEnumerable<std::shared_ptr<object>> lst;
 		lst.Add(std::make_shared<object>(LispVariant(LispType::_Symbol, std::make_shared<object>(LispEnvironment::Quote))));
 		lst.Add(std::make_shared<object>(LispVariant(std::make_shared<object>(realArguments))));
 		/*List<object>*/std::shared_ptr<object> quotedRealArguments = std::make_shared<object>(lst); //  new List<object>() { new LispVariant(LispType.Symbol, LispEnvironment.Quote), realArguments };
-		expression = ReplaceSymbolWithValueInExpression(LispVariant(LispType::_Symbol, std::make_shared<object>("quoted-macro-args")), quotedRealArguments, expression, true, /*ref*/ replaced);
 
 		for (var formalArgument : *formalArguments)
 		{
@@ -400,10 +398,10 @@ namespace CppLisp
 			{
 				value = std::make_shared<object>(LispVariant((*astAsList)[i]));
 			}
-			expression = ReplaceSymbolWithValueInExpression(/*(LispVariant)*/formalArgument->ToLispVariantRef(), value, expression, false, /*ref*/ anyMacroReplaced);
+			replacements.push_back(std::make_pair(formalArgument->ToLispVariantRef(), value));
 			i++;
 		}
-		return expression;
+		return ReplaceSymbolsWithValuesInExpression(replacements, quotedRealArguments, expression, /*ref*/ anyMacroReplaced);
 	}
 
 	bool LispInterpreter::IsSymbol(std::shared_ptr<object> elem)
diff --git a/CppLisp/CppLispInterpreter/Interpreter.h b/CppLisp/CppLispInterpreter/Interpreter.h
index 39adae2..931f7a4 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.h
+++ b/CppLisp/CppLispInterpreter/Interpreter.h
@@ -104,7 +104,7 @@ namespace CppLisp
         /// <returns></returns>
 		/*private*/ static LispBreakpointPosition GetPosInfo(std::shared_ptr<object> item);
 
-		/*private*/ static std::shared_ptr<IEnumerable<std::shared_ptr<object>>> ReplaceSymbolWithValueInExpression(const LispVariant & symbol, std::shared_ptr<object> symbolValue, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, bool macroArgsReplace, /*ref*/ bool & replacedAnything);
+		/*private*/ static std::shared_ptr<IEnumerable<std::shared_ptr<object>>> ReplaceSymbolsWithValuesInExpression(const std::vector<std::pair<LispVariant, std::shared_ptr<object>>> & replacements, std::shared_ptr<object> quotedMacroArgs, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, /*ref*/ bool & replacedAnything);
 		/*private*/ static std::shared_ptr<IEnumerable<std::shared_ptr<object>>> ReplaceFormalArgumentsInExpression(std::shared_ptr<IEnumerable<std::shared_ptr<object>>> formalArguments, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> astAsList, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> expression, std::shared_ptr<LispScope> scope, /*ref*/ bool & anyMacroReplaced);
 		/*private*/ static bool IsSymbol(std::shared_ptr<object> elem);
 
-- 
2.43.0


From 8ebea5c0d140d4d21d4c1bd81c804ffcdd97849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 26/45] fix: lists built by a compile-time macro are code at
 every depth

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index b0dde6f..3cc84a5 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -252,6 +252,23 @@ namespace CppLisp
 		return something;
 	}
 
+	// the lists in the result of a macro are code at every depth
+	static std::shared_ptr<object> ConvertMacroResultToCode(std::shared_ptr<object> something)
+	{
+		something = ConvertLispVariantListToListIfNeeded(something);
+		if (something->IsLispVariant() || !(something->IsIEnumerableOfObject() || something->IsList()))
+		{
+			return something;
+		}
+
+		IEnumerable<std::shared_ptr<object>> code;
+		for (var elem : something->ToEnumerableOfObjectRef())
+		{
+			code.Add(ConvertMacroResultToCode(elem));
+		}
+		return std::make_shared<object>(code);
+	}
+
 	std::shared_ptr<object> LispInterpreter::ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope, /*ref*/ bool & anyMacroReplaced)
 	{
 		if (ast == null || ast->IsLispVariant())
@@ -297,7 +314,7 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				var processedAst = ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*EvalAstToValue(astWithReplacedArguments, globalScope)));
+				var processedAst = ConvertMacroResultToCode(std::make_shared<object>(*EvalAstToValue(astWithReplacedArguments, globalScope)));
 				return std::make_shared<object>(*processedAst);
 			}
 		}
-- 
2.43.0


From a7f43f850470c229488ea1543094bc9aeac883c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 27/45] fix: tracing flag of new scopes is initialized

---
 CppLisp/CppLispInterpreter/Scope.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 01fc683..1993d1d 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -35,6 +35,7 @@ namespace CppLisp
 		IsInEval = false;
 		IsInReturn = false;
 		NeedsLValue = false;
+		Tracing = false;
 		Name = fcnName;
 		ModuleName = moduleName ? *moduleName : string::Empty;
 		//GlobalScope = globalScope != null ? globalScope : shared_from_this();
-- 
2.43.0


From 8bd9e79a292f229f85e8bbc73d548916dddbb034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 28/45] fix: changing a list nested in a quoted list does not
 change the program

---
 CppLisp/CppLispInterpreter/Environment.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 77d5853..581ab34 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1665,11 +1665,26 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 
 #endif
 
+// copies quoted code including all nested lists, so that changes of the quoted lists do not change the program
+static std::shared_ptr<object> CopyQuoted(std::shared_ptr<object> expression)
+{
+	if (!expression->IsIEnumerableOfObject() && !expression->IsList())
+	{
+		return std::make_shared<object>(*expression);
+	}
+	IEnumerable<std::shared_ptr<object>> result;
+	for (var item : expression->IsIEnumerableOfObject() ? expression->ToEnumerableOfObjectRef() : expression->ToListRef())
+	{
+		result.Add(item->IsIEnumerableOfObject() || item->IsList() ? CopyQuoted(item) : item);
+	}
+	return std::make_shared<object>(result);
+}
+
 static std::shared_ptr<LispVariant> quote_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs(Quote, 1, args, scope);
 
-	return std::make_shared<LispVariant>(std::make_shared<object>(*(args[0])));
+	return std::make_shared<LispVariant>(CopyQuoted(args[0]));
 }
 
 std::shared_ptr<object> UnQuoteIfNeeded(std::shared_ptr<object> item, bool & isSplicing, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From fead21b43182974ae97ee96da8111772590d56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 29/45] fix: format accepts every text as argument, also the
 one that marked missing arguments

---
 CppLisp/CppLispInterpreter/Token.cpp    | 1 +
 CppLisp/CppLispInterpreter/csstring.cpp | 2 +-
 CppLisp/CppLispInterpreter/csstring.h   | 7 ++++---
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Token.cpp b/CppLisp/CppLispInterpreter/Token.cpp
index 63dd3bc..5ba70fe 100644
--- a/CppLisp/CppLispInterpreter/Token.cpp
+++ b/CppLisp/CppLispInterpreter/Token.cpp
@@ -35,6 +35,7 @@ const CppLisp::string CppLisp::LispToken::Unquotesplicing = ",@";
 const CppLisp::string CppLisp::LispToken::NilConst = "NIL";
 
 const CppLisp::string CppLisp::string::Empty = "";
+const CppLisp::string CppLisp::string::NoArgument = "";
 
 namespace CppLisp
 {
diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 3699949..9da9f66 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -168,7 +168,7 @@ namespace CppLisp
 				if (isValid && pos < txt.size() && txt[pos] == '}')
 				{
 					const string & arg = *args[txt[i + 1] - '0'];
-					if (arg == NULL_STRING)
+					if (&arg == &NoArgument)
 					{
 						throw LispExceptionBase("Not enough items for format string: " + txt);
 					}
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 3cfef83..ddfb09f 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -94,8 +94,6 @@
 //}
 //#endif
 
-#define NULL_STRING "##<NULL>##"
-
 namespace CppLisp
 {
 	inline std::string & do_replace(std::string & s, const std::string & searchTxt, const std::string & replaceTxt)
@@ -184,10 +182,13 @@ namespace CppLisp
 		std::vector<string> Split(const string & seperator) const;
 
 		static bool IsNullOrEmpty(const string & txt);
-		static string Format(const string & txt, const string & arg1 = NULL_STRING, const string & arg2 = NULL_STRING, const string & arg3 = NULL_STRING, const string & arg4 = NULL_STRING, const string & arg5 = NULL_STRING);
+		static string Format(const string & txt, const string & arg1 = NoArgument, const string & arg2 = NoArgument, const string & arg3 = NoArgument, const string & arg4 = NoArgument, const string & arg5 = NoArgument);
 		static int CompareOrdinal(const string & a, const string & b);
 
 		const static string Empty;
+
+		// stands for a missing argument of Format, only its address is of interest
+		const static string NoArgument;
 	};
 }
 
-- 
2.43.0


From 8ccc58eb3782245bf95bf8a53223a01d2d82179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 30/45] fix: evalstr expands compile-time macros inside of
 functions

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 3cc84a5..b2d5354 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -285,9 +285,11 @@ namespace CppLisp
 		// compile time macro: process define-macro statements ==> call special form, this will add macro to global scope as side effect
 		var function = astAsList.front();
 		var functionName = function->ToString();
-		if (globalScope != null && globalScope->ContainsKey(functionName))
+		// macros belong to the global scope, also if the code is evaluated in the scope of a function (evalstr)
+		std::shared_ptr<LispScope> macroScope = globalScope != null && globalScope->GlobalScope != null ? globalScope->GlobalScope : globalScope;
+		if (macroScope != null && macroScope->ContainsKey(functionName))
 		{
-			var value = (*globalScope)[functionName];
+			var value = (*macroScope)[functionName];
 			if (value->IsLispVariant() && value->ToLispVariantRef().IsFunction() && value->ToLispVariantRef().FunctionValue().IsEvalInExpand())
 			{
 				var fcn = value->ToLispVariantRef().FunctionValue();
@@ -305,9 +307,9 @@ namespace CppLisp
 		}
 
 		// compile time macros: process macro expansion in an expression which calls a macro
-		if (LispEnvironment::IsMacro(function, globalScope))
+		if (LispEnvironment::IsMacro(function, macroScope))
 		{
-			var macro = LispEnvironment::GetMacro(function, globalScope);
+			var macro = LispEnvironment::GetMacro(function, macroScope);
 			if (macro->IsLispMacroCompileTimeExpand())
 			{
 				anyMacroReplaced = true;
-- 
2.43.0


From 6872b2024ff4f3cebbc81f593f71df262b20c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 31/45] fix: the scope of an imported module is shared, changes
 of its variables are visible

---
 CppLisp/CppLispInterpreter/Environment.cpp |  2 +-
 CppLisp/CppLispInterpreter/csobject.cpp    | 12 +++++++++---
 CppLisp/CppLispInterpreter/csobject.h      |  4 +++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 581ab34..c3ce3ea 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -635,7 +635,7 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			}
 
 			// add new module to modules scope
-			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
+			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(importScope); // .Add(fileName, importScope);
 
 			scope->PopNextScope();
 		}
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 45d3e88..aa5c035 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -64,7 +64,13 @@ namespace CppLisp
 	object::object(const LispScope & value)
 		: m_Type(ObjectType::__LispScope)
 	{
-		m_Data.pScope = new LispScope(value);
+		m_Data.pScope = new std::shared_ptr<LispScope>(std::make_shared<LispScope>(value));
+	}
+
+	object::object(std::shared_ptr<LispScope> value)
+		: m_Type(ObjectType::__LispScope)
+	{
+		m_Data.pScope = new std::shared_ptr<LispScope>(value);
 	}
 
 	object::object(std::function<void(std::shared_ptr<object>)> action)
@@ -83,7 +89,7 @@ namespace CppLisp
 		}
 		else if (other.IsLispScope())
 		{
-			m_Data.pScope = new LispScope(*(other.GetLispScopeRef()));
+			m_Data.pScope = new std::shared_ptr<LispScope>(std::make_shared<LispScope>(*(other.GetLispScopeRef())));
 		}
 		else if (other.IsLispFunctionWrapper())
 		{
@@ -436,7 +442,7 @@ namespace CppLisp
 	{
 		if (IsLispScope())
 		{
-			return m_Data.pScope;
+			return m_Data.pScope->get();
 		}
 		return null;
 	}
diff --git a/CppLisp/CppLispInterpreter/csobject.h b/CppLisp/CppLispInterpreter/csobject.h
index 341dc85..1401f6b 100644
--- a/CppLisp/CppLispInterpreter/csobject.h
+++ b/CppLisp/CppLispInterpreter/csobject.h
@@ -116,7 +116,7 @@ namespace CppLisp
 // TODO --> maybe use shared_ptr, so we can return the correct reference and no copy (i. e. for pCompileMacro) --> search for return copy
 			std::string * pString;
 			LispVariant * pVariant;
-			LispScope * pScope;
+			std::shared_ptr<LispScope> * pScope;
 			LispToken * pToken;
 			IEnumerable<std::shared_ptr<object>> * pList;
 			LispFunctionWrapper * pFunctionWrapper;
@@ -180,6 +180,8 @@ namespace CppLisp
 		explicit object(const LispMacroCompileTimeExpand & value);
 
 		explicit object(const LispScope & value);
+		// the scope is not copied: changes of the scope are visible in the object
+		explicit object(std::shared_ptr<LispScope> value);
 
 		explicit object(std::function<void(std::shared_ptr<object>)> action);
 
-- 
2.43.0


From f32798d51a85502017b3b57f77e967410b711176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 32/45] fix: setf finds the variables of imported modules

---
 CppLisp/CppLispInterpreter/Environment.cpp | 19 ++++++++++++++-----
 CppLisp/CppLispInterpreter/Environment.h   |  1 +
 CppLisp/CppLispInterpreter/Scope.cpp       |  4 ++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index c3ce3ea..6d20833 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2133,6 +2133,17 @@ bool LispEnvironment::FindFunctionInModules(const string & funcName, std::shared
 {
 	foundValue = null;
 
+	LispScope * module = FindModule(funcName, scope);
+	if (module != null)
+	{
+		foundValue = (*module)[funcName];
+		return true;
+	}
+	return false;
+}
+
+LispScope * LispEnvironment::FindModule(const string & name, std::shared_ptr<LispScope> scope)
+{
 	std::shared_ptr<object> importedModules = (*(scope->GlobalScope))[LispEnvironment::Modules];
 	if (importedModules.get() != null)
 	{
@@ -2140,15 +2151,13 @@ bool LispEnvironment::FindFunctionInModules(const string & funcName, std::shared
 		for (/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> kv : *tempScope)
 		{
 			var module = /*(LispScope)*/kv.second->GetLispScopeRef();
-			auto item = module->find(funcName);
-			if (item != module->end())
+			if (module->find(name) != module->end())
 			{
-				foundValue = item->second;
-				return true;
+				return module;
 			}
 		}
 	}
-	return false;
+	return null;
 }
 
 bool LispEnvironment::IsInModules(const string & funcName, std::shared_ptr<LispScope> scope)
diff --git a/CppLisp/CppLispInterpreter/Environment.h b/CppLisp/CppLispInterpreter/Environment.h
index fc05c09..7776e0b 100644
--- a/CppLisp/CppLispInterpreter/Environment.h
+++ b/CppLisp/CppLispInterpreter/Environment.h
@@ -108,6 +108,7 @@ namespace CppLisp
 		static bool IsInModules(const string & funcName, std::shared_ptr<LispScope> scope);
 		static bool IsMacro(std::shared_ptr<object> funcName, std::shared_ptr<LispScope> scope);
 		static bool IsExpression(std::shared_ptr<object> item);
+		static LispScope * FindModule(const string & name, std::shared_ptr<LispScope> scope);
 		static bool FindFunctionInModules(const string & funcName, std::shared_ptr<LispScope> scope, std::shared_ptr<object> & foundValue);
 
 		static std::shared_ptr<LispScope> CreateDefaultScope();
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 1993d1d..7cf33f6 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -150,6 +150,10 @@ namespace CppLisp
 		{
 			(*GlobalScope)[symbolName] = value;
 		}
+		else if (!string::IsNullOrEmpty(symbolName) && GlobalScope != null && LispEnvironment::IsInModules(symbolName, GlobalScope))
+		{
+			(*LispEnvironment::FindModule(symbolName, GlobalScope))[symbolName] = value;
+		}
 		else
 		{
 			throw LispException("Symbol " + symbolName + " not found", this);
-- 
2.43.0


From 71a3a1e0cc92bb7c3540a44c4e44cfd62ef39514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 33/45] fix: defstruct takes its name literally and is-NAME-p
 accepts empty lists

---
 Library/fuellib.fuel | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Library/fuellib.fuel b/Library/fuellib.fuel
index 2f266b8..b22d3f9 100755
--- a/Library/fuellib.fuel
+++ b/Library/fuellib.fuel
@@ -101,20 +101,20 @@
     (do
         
       (eval 
-        (list 'defn (sym (+ "make-" name)) (cdr (quoted-macro-args)) 
-            `(list ,(sym (+ "#" name)) ,@(cdr (quoted-macro-args)))
+        (list 'defn (sym (+ "make-" (str 'name))) (cdr (quoted-macro-args)) 
+            `(list ,(sym (+ "#" (str 'name))) ,@(cdr (quoted-macro-args)))
          )
       )
 
     (eval 
-        (list 'defn (sym (+ "is-" name "-p")) '(data) 
-            `(and (== (type data) 6) (== (first data) ,(sym (+ "#" name))))
+        (list 'defn (sym (+ "is-" (str 'name) "-p")) '(data) 
+            `(and (== (type data) 6) (> (len data) 0) (== (first data) ,(sym (+ "#" (str 'name)))))
          )
     )
 
     (dotimes (__i (- (len (quoted-macro-args)) 1))
         (eval
-            (list 'defn (sym (+ "get-" name "-" (str (nth (+ __i 1) (quoted-macro-args))))) '(data)
+            (list 'defn (sym (+ "get-" (str 'name) "-" (str (nth (+ __i 1) (quoted-macro-args))))) '(data)
             `(nth (+ ,__i 1) data)  
                ;; TODO: handle case when (need-l-value) is #t --> return l-value of struct list
             )
-- 
2.43.0


From c9c3b89edd6d1cb95ca96f7c41f342ab6a2856a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 34/45] fix: the current position is that of the called
 function again after its arguments were evaluated

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index b2d5354..4ab9194 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -210,6 +210,9 @@ namespace CppLisp
 			arguments.push_back(result);
 		}
 
+		// the evaluation of the arguments may have changed the current token
+		scope->CurrentToken = currentToken != null ? currentToken : scope->CurrentToken;
+
 #ifndef _DISABLE_DEBUGGER
 		// debugger processing
 		var debugger = scope->GlobalScope->Debugger;
-- 
2.43.0


From cbde70bce65a6031fa24fe799f9ea0511262e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 35/45] fix: the debugger stops at code without positions

---
 CppLisp/CppLispDebugger/Debugger.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 01deeef..2df2b25 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -263,11 +263,12 @@ namespace CppLisp
 	{
 		if (currentAst != null)
 		{
-			var lineNumber = initialTopScope != null ? initialTopScope->CurrentLineNo() : 0;
-			var startPos = initialTopScope != null ? initialTopScope->CurrentToken->StartPos : 0;
-			var stopPos = initialTopScope != null ? initialTopScope->CurrentToken->StopPos : 0;
+			var token = initialTopScope != null ? initialTopScope->CurrentToken : null;
+			var lineNumber = token != null ? token->LineNo : 0;
+			var startPos = token != null ? token->StartPos : 0;
+			var stopPos = token != null ? token->StopPos : 0;
 			var moduleName = initialTopScope != null ? initialTopScope->ModuleName : "?";
-			var tokenTxt = initialTopScope != null ? initialTopScope->CurrentToken->ToString() : "?";
+			var tokenTxt = token != null ? token->ToString() : "?";
 			Output->WriteLine("--> " + (*((*currentAst).begin()))->ToString()/*[0]*/ + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
 		}
 		InteractiveLoop(this, initialTopScope, startedFromMain, tracing, outp, inp);
-- 
2.43.0


From 72af4cd2b01090d8ba64c0690d16754d402c9bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 36/45] fix: the debugger warns about malformed breakpoint
 commands

---
 CppLisp/CppLispDebugger/Debugger.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 2df2b25..33e5afb 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -30,6 +30,10 @@
 #include "cstypes.h"
 #include "csstring.h"
 
+#include <cerrno>
+#include <climits>
+#include <cstdlib>
+
 using namespace CppLisp;
 
 const string LispDebugger::Prompt = /*Lisp::Name*/string("FUEL(isp)") + "> ";
@@ -522,7 +526,7 @@ namespace CppLisp
 				// process: filename:linenumber
 				size_t iStopPos;
 				moduleName = GetStringLiteral(rest.Substring(1), /*out*/ iStopPos);
-				rest = rest.Substring(iStopPos + 2); // adjust for the two "
+				rest = iStopPos + 2 <= rest.size() ? rest.Substring(iStopPos + 2) : string::Empty; // adjust for the two "
 				if (rest.StartsWith(":"))
 				{
 					cmdArgs = rest.Substring(1).Split(' ');
@@ -545,7 +549,7 @@ namespace CppLisp
 					moduleName = cmdArgs[0].Substring(0, posModuleSeparator);
 				}
 				Tuple<bool, int> val = ConvertToInt(lineNumberString);
-				if (val.Item1())
+				if (val.Item1() && val.Item2() > 0)
 				{
 					debugger->AddBreakpoint(val.Item2(), moduleName, rest.size() > 0 ? rest : string::Empty);
 					added = true;
@@ -614,16 +618,10 @@ namespace CppLisp
 
 	Tuple<bool, int> LispDebugger::ConvertToInt(const string & value)
 	{
-		var result = 0;
-		var ok = true;
-		try
-		{
-			result = /*Convert.ToInt32*/atoi(value.c_str());
-		}
-		catch (/*FormatException*/...)
-		{
-			ok = false;
-		}
-		return /*new*/ Tuple<bool, int>(ok, result);
+		char * end = 0;
+		errno = 0;
+		long result = /*Convert.ToInt32*/strtol(value.c_str(), &end, 10);
+		bool ok = errno == 0 && end != value.c_str() && *end == 0 && result >= INT_MIN && result <= INT_MAX;
+		return /*new*/ Tuple<bool, int>(ok, ok ? (int)result : 0);
 	}
 }
-- 
2.43.0


From ba62792727661703b926b35ae989ac7cfe2217fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 37/45] fix: the question of the clear command ends at the end
 of the input

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 33e5afb..870b782 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -504,7 +504,7 @@ namespace CppLisp
 					{
 						answer = answer.ToUpper();
 					}
-				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
+				} while (!(string::IsNullOrEmpty(answer) || answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
 				if (answer == "Y" || answer == "YES")
 				{
 					debugger->ClearAllBreakpoints();
-- 
2.43.0


From 67ccd61132fccb9038b2c88bf9491f06db6bb26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 38/45] fix: the code command of the debugger shows texts of
 evalstr

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 870b782..bec6ad4 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -172,7 +172,7 @@ namespace CppLisp
 				}
 				else
 				{
-					script = moduleName.StartsWith(LispEnvironment::EvalStrTag) ? moduleName.Substring(LispEnvironment::EvalStrTag.size() + moduleName.IndexOf(":", LispEnvironment::EvalStrTag.size())) : /*LispUtils*/ReadFileOrEmptyString(moduleName);
+					script = moduleName.StartsWith(LispEnvironment::EvalStrTag) ? moduleName.Substring(moduleName.IndexOf(":", LispEnvironment::EvalStrTag.size()) + 1) : /*LispUtils*/ReadFileOrEmptyString(moduleName);
 				}
 				// use the script given on command line if no valid module name was set
 				if (string::IsNullOrEmpty(script))
-- 
2.43.0


From a5879bcf9e19a1711e6828e865c1d7344501b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 39/45] fix: conditions and texts evaluated by the debugger do
 not change the stopped program

---
 CppLisp/CppLispDebugger/Debugger.cpp | 109 +++++++++++++++++++++++----
 CppLisp/CppLispDebugger/Debugger.h   |   9 +++
 2 files changed, 102 insertions(+), 16 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index bec6ad4..67d3da1 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -26,6 +26,7 @@
 #include "Debugger.h"
 #include "Lisp.h"
 #include "Exception.h"
+#include "Interpreter.h"
 
 #include "cstypes.h"
 #include "csstring.h"
@@ -47,8 +48,60 @@ extern "C" CppLisp::ILispDebugger * create_debugger()
 
 namespace CppLisp
 {
+	// restores the state of a stopped program after the evaluation of a text, also if an error occurred
+	class RestoreStateOfProgram
+	{
+	private:
+		bool & m_bIsEvaluating;
+		bool m_bOriginalIsEvaluating;
+		std::shared_ptr<LispScope> m_pScope;
+		std::shared_ptr<LispScope> m_pNext;
+		std::shared_ptr<LispToken> m_pCurrentToken;
+		IEnumerable<std::shared_ptr<LispToken>> m_aTokens;
+		string m_sModuleName;
+		bool m_bIsInReturn;
+		bool m_bIsInEval;
+		bool m_bNeedsLValue;
+		bool m_bTracing;
+		bool m_bGlobalTracing;
+
+	public:
+		RestoreStateOfProgram(bool & isEvaluating, std::shared_ptr<LispScope> scope)
+			: m_bIsEvaluating(isEvaluating),
+			  m_bOriginalIsEvaluating(isEvaluating),
+			  m_pScope(scope),
+			  m_pNext(scope->Next),
+			  m_pCurrentToken(scope->CurrentToken),
+			  m_aTokens(scope->Tokens),
+			  m_sModuleName(scope->ModuleName),
+			  m_bIsInReturn(scope->IsInReturn),
+			  m_bIsInEval(scope->IsInEval),
+			  m_bNeedsLValue(scope->NeedsLValue),
+			  m_bTracing(scope->Tracing),
+			  m_bGlobalTracing(scope->GlobalScope->Tracing)
+		{
+			m_bIsEvaluating = true;
+			scope->NeedsLValue = false;
+		}
+
+		~RestoreStateOfProgram()
+		{
+			m_bIsEvaluating = m_bOriginalIsEvaluating;
+			m_pScope->Next = m_pNext;
+			m_pScope->CurrentToken = m_pCurrentToken;
+			m_pScope->Tokens = m_aTokens;
+			m_pScope->ModuleName = m_sModuleName;
+			m_pScope->IsInReturn = m_bIsInReturn;
+			m_pScope->IsInEval = m_bIsInEval;
+			m_pScope->NeedsLValue = m_bNeedsLValue;
+			m_pScope->Tracing = m_bTracing;
+			m_pScope->GlobalScope->Tracing = m_bGlobalTracing;
+		}
+	};
+
 	LispDebugger::LispDebugger()
 	{
+		IsEvaluating = false;
 		Breakpoints = std::vector<LispBreakpointInfo>();
 		Output = /*Console.Out*/std::make_shared<TextWriter>();
 		Input = /*Console.In*/std::make_shared<TextReader>();
@@ -128,8 +181,7 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(doc '" + items[1] + ")";
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					debugger->EvalTextAndShowResult(docCmd, currentScope, "{0}");
 				}
 				else
 				{
@@ -142,8 +194,7 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(searchdoc '" + items[1] + ")";
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					debugger->EvalTextAndShowResult(docCmd, currentScope, "{0}");
 				}
 				else
 				{
@@ -243,20 +294,10 @@ namespace CppLisp
 			}
 			else
 			{
-				try
+				if (debugger->EvalTextAndShowResult(cmd, currentScope, "result={0}", outp, inp))
 				{
-					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
-					debugger->Output->WriteLine("result={0}", result->ToString());
 					interactiveScript += cmd + "\n";
 				}
-				catch (LispExceptionBase & ex)
-				{
-					debugger->Output->WriteLine("Exception: " + ex.Message);
-				}
-				catch (...)
-				{
-					debugger->Output->WriteLine("Native Exception");
-				}
 			}
 		} while (!bContinueWithNextStatement);
 
@@ -265,6 +306,11 @@ namespace CppLisp
 
 	void LispDebugger::InteractiveLoop(std::shared_ptr<LispScope> initialTopScope, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> currentAst, bool startedFromMain, bool tracing, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp)
 	{
+		// the evaluation of commands and conditions is not debugged
+		if (IsEvaluating)
+		{
+			return;
+		}
 		if (currentAst != null)
 		{
 			var token = initialTopScope != null ? initialTopScope->CurrentToken : null;
@@ -280,6 +326,11 @@ namespace CppLisp
 
 	bool LispDebugger::NeedsBreak(std::shared_ptr<LispScope> scope, LispBreakpointPosition posInfosOfCurrentAstItem)
 	{
+		// the evaluation of commands and conditions is not debugged
+		if (IsEvaluating)
+		{
+			return false;
+		}
 		if ((IsProgramStop && IsStopStepFcn(scope)) || HitsBreakpoint(posInfosOfCurrentAstItem.Item3(), scope->ModuleName, scope))
 		{
 			IsProgramStop = false;
@@ -345,6 +396,32 @@ namespace CppLisp
 		return result;
 	}
 
+	std::shared_ptr<LispVariant> LispDebugger::EvalText(const string & text, std::shared_ptr<LispScope> scope, bool tracing, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp)
+	{
+		const RestoreStateOfProgram restore(IsEvaluating, scope);
+		scope->GlobalScope->Tracing = tracing;
+		return LispInterpreter::ToValue(Lisp::Eval(text, scope, scope->ModuleName, tracing, outp, inp));
+	}
+
+	bool LispDebugger::EvalTextAndShowResult(const string & text, std::shared_ptr<LispScope> scope, const string & format, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp)
+	{
+		try
+		{
+			std::shared_ptr<LispVariant> result = EvalText(text, scope, scope->GlobalScope->Tracing, outp, inp);
+			Output->WriteLine(format, result->ToString());
+			return true;
+		}
+		catch (LispExceptionBase & ex)
+		{
+			Output->WriteLine("Exception: " + ex.Message);
+		}
+		catch (...)
+		{
+			Output->WriteLine("Native Exception");
+		}
+		return false;
+	}
+
 	void LispDebugger::Reset()
 	{
 		IsProgramStop = true;
@@ -362,7 +439,7 @@ namespace CppLisp
 				{
 					try
 					{
-						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
+						std::shared_ptr<LispVariant> result = EvalText(breakpoint.Condition, scope, /*tracing:*/ false);
 						return result->BoolValue();
 					}
 					catch (...)
diff --git a/CppLisp/CppLispDebugger/Debugger.h b/CppLisp/CppLispDebugger/Debugger.h
index 6049917..4db3c43 100644
--- a/CppLisp/CppLispDebugger/Debugger.h
+++ b/CppLisp/CppLispDebugger/Debugger.h
@@ -90,6 +90,8 @@ namespace CppLisp
 
 		/*private*/ std::function<bool(std::shared_ptr<LispScope>)> IsStopStepFcn; // { get; set; }
 
+		/*private*/ bool IsEvaluating; // { get; set; }
+
 		/*private*/ std::vector<LispBreakpointInfo> Breakpoints; // { get; set; }
 
 		/*private*/ string CommandLineScript; // { get; set; }
@@ -164,6 +166,13 @@ namespace CppLisp
 
 		/*private*/ void Reset();
 
+		/// <summary>
+		/// Evaluates a text (command or condition) for the stopped program.
+		/// The state of the stopped program is not changed and the evaluation itself is not debugged.
+		/// </summary>
+		/*private*/ std::shared_ptr<LispVariant> EvalText(const string & text, std::shared_ptr<LispScope> scope, bool tracing, std::shared_ptr<TextWriter> outp = null, std::shared_ptr<TextReader> inp = null);
+		/*private*/ bool EvalTextAndShowResult(const string & text, std::shared_ptr<LispScope> scope, const string & format, std::shared_ptr<TextWriter> outp = null, std::shared_ptr<TextReader> inp = null);
+
 		/*private*/ bool HitsBreakpoint(size_t lineNo, const string & moduleName, std::shared_ptr<LispScope> scope);
 		/*private*/ bool HasBreakpointAt(size_t lineNo, const string & moduleName);
 		/*private*/ void AddBreakpoint(size_t lineNo, const string & moduleName, const string & condition);
-- 
2.43.0


From 6ac910b0f85ab91d568abc3607aabe8b4ca4c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 40/45] fix: the library path option may be followed by other
 arguments

---
 CppLisp/CppLispInterpreter/fuel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 9baa8c8..d0de300 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -215,7 +215,8 @@ namespace CppLisp
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-		var libPath = std::vector<string>(std::find_if(args.begin(), args.end(), [](const string & v) -> bool { return v.StartsWith("-l="); }), args.end());
+		std::vector<string> libPath;
+		std::copy_if(args.begin(), args.end(), back_inserter(libPath), [](const string & v) -> bool { return v.StartsWith("-l="); });
 		if (libPath.size() > 0)
 		{
 			if (libPath.size() == 1)
-- 
2.43.0


From 0c6eb94883030911d7907ec46ae055165b54aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 41/45] fix: option -e without a script is reported

---
 CppLisp/CppLispInterpreter/fuel.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index d0de300..364c7d6 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -211,7 +211,13 @@ namespace CppLisp
 		}
 		if (ContainsOptionAndRemove(allArgs, "-e"))
 		{
-			script = /*LispUtils.*/GetScriptFilesFromProgramArgs(args)[0]/*.FirstOrDefault()*/;
+			var scripts = /*LispUtils.*/GetScriptFilesFromProgramArgs(args);
+			if (scripts.size() == 0)
+			{
+				output->WriteLine("Error: no script given for option -e");
+				return;
+			}
+			script = scripts.front()/*.FirstOrDefault()*/;
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-- 
2.43.0


From a1639ac2af0d725c8306536a21887f559012a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 42/45] fix: the result of a script without a value can be
 shown

---
 CppLisp/CppLispInterpreter/fuel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 364c7d6..26974af 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -345,6 +345,11 @@ namespace CppLisp
 			result = Lisp::SaveEval(script, /*moduleName:*/ "cmdline", /*verboseErrorOutput:*/ false, /*tracing:*/ false, output, input, macroExpand);
 		}
 
+		if (result == null)
+		{
+			// the script has no value, for example (if #f 1)
+			result = std::make_shared<LispVariant>();
+		}
 		if (macroExpand)
 		{
 			output->WriteLine(string("Macro expand: ") + result->ToString());
-- 
2.43.0


From d47fb397fada1d985a222844614b61ff31ebf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 43/45] fix: options -t and -x apply to scripts given by -e,
 too

---
 CppLisp/CppLispInterpreter/fuel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 26974af..fd42fdd 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -157,6 +157,7 @@ namespace CppLisp
 		string script = /*null*/string::Empty;
 		var loadFiles = true;
 		var trace = false;
+		var traceCalls = false;
 		var macroExpand = false;
 		//var compile = false;
 		var wasDebugging = false;
@@ -208,6 +209,7 @@ namespace CppLisp
 		if (ContainsOptionAndRemove(allArgs, "-t"))
 		{
 			trace = true;
+			traceCalls = true;
 		}
 		if (ContainsOptionAndRemove(allArgs, "-e"))
 		{
@@ -342,7 +344,7 @@ namespace CppLisp
 		else if (!string::IsNullOrEmpty(script) && !wasDebugging)
 		{
 			// process -e option
-			result = Lisp::SaveEval(script, /*moduleName:*/ "cmdline", /*verboseErrorOutput:*/ false, /*tracing:*/ false, output, input, macroExpand);
+			result = Lisp::SaveEval(script, /*moduleName:*/ "cmdline", /*verboseErrorOutput:*/ lengthyErrorOutput, /*tracing:*/ traceCalls, output, input, macroExpand);
 		}
 
 		if (result == null)
-- 
2.43.0


From 81dd3265ed4438f161d25f61c6bc25a594ee20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 44/45] fix: a missing script file is reported

---
 CppLisp/CppLispInterpreter/fuel.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index fd42fdd..b50dd31 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -30,6 +30,8 @@
 
 #include "fuel.h"
 
+#include <fstream>
+
 #if defined( _WIN32 )
 #include <windows.h>
 #define FUEL_DEBUGGER_NAME "FuelDebugger.dll"
@@ -123,6 +125,18 @@ namespace CppLisp
 		return false;
 	}
 
+	// reports a script file that does not exist
+	static bool ScriptFileExists(const string & fileName, std::shared_ptr<TextWriter> output)
+	{
+		std::ifstream scriptFile(fileName);
+		if (!scriptFile.good())
+		{
+			output->WriteLine("Error: script file not found: " + fileName);
+			return false;
+		}
+		return true;
+	}
+
 	bool Contains(const std::vector<string> & container, const string & search)
 	{
 		return std::find(container.begin(), container.end(), search) != container.end();
@@ -305,6 +319,10 @@ namespace CppLisp
 				// process -e option if script is given via command line
 				if (string::IsNullOrEmpty(script))
 				{
+					if (!string::IsNullOrEmpty(fileName))
+					{
+						ScriptFileExists(fileName, output);
+					}
 					script = /*LispUtils.*/ReadFileOrEmptyString(fileName);
 				}
 				else
@@ -324,6 +342,11 @@ namespace CppLisp
 		{
 			for (var fileName : scriptFiles)
 			{
+				if (!ScriptFileExists(fileName, output))
+				{
+					result = LispVariant::CreateErrorValue("script file not found: " + fileName);
+					continue;
+				}
 				script = /*LispUtils.*/ReadFileOrEmptyString(fileName);
 				//ILispCompiler compiler = TryGetCompiler();
 				//if (compile && compiler != null)
-- 
2.43.0


From fe8347331de98c521f8bdc916e89b80d84d467fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 45/45] fix: an error of a script is reported once

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 37 +++++++++++++----------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 232a031..9dfc32f 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -147,15 +147,24 @@ namespace CppLisp
 		return data != null ? data->ToString() : "not available";
 	}
 
-	// reports an error for which no position is known
-	static std::shared_ptr<LispVariant> ReportError(const string & message, std::shared_ptr<TextWriter> outp)
+	// writes the text of an error once, to the output of the program or to the console
+	static void WriteError(const string & errMsg, std::shared_ptr<TextWriter> outp)
 	{
-		string errMsg = string::Format("\nError executing script.\n\n{0}", message);
-		std::cout << errMsg << std::endl;
 		if (outp != null)
 		{
 			outp->WriteLine(errMsg);
 		}
+		else
+		{
+			std::cout << errMsg << std::endl;
+		}
+	}
+
+	// reports an error for which no position is known
+	static std::shared_ptr<LispVariant> ReportError(const string & message, std::shared_ptr<TextWriter> outp)
+	{
+		string errMsg = string::Format("\nError executing script.\n\n{0}", message);
+		WriteError(errMsg, outp);
 		return LispVariant::CreateErrorValue(message);
 	}
 
@@ -170,29 +179,17 @@ namespace CppLisp
 		{
 			/*Console.WriteLine*/ //std::cout << string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, exc.Data[LispUtils.LineNo], exc.Data[LispUtils.StartPos], exc.Data[LispUtils.StopPos], exc.Data[LispUtils.ModuleName]) << std::endl;
 			string errMsg = string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, GetDataText(exc, "LineNo"), GetDataText(exc, "StartPos"), GetDataText(exc, "StopPos"), GetDataText(exc, "ModuleName"));
-			std::cout << errMsg << std::endl;
-			if (outp != null)
-			{
-				outp->WriteLine(errMsg);
-			}
+			WriteError(errMsg, outp);
 // TODO --> implement stack trace for exception
 			var stackInfo = exc.Data["StackInfo"];
 			//Console.WriteLine("\nCallstack:\n{0}", stackInfo != null ? stackInfo : ">not available<");                if (verboseErrorOutput)
 			errMsg = string::Format("\nCallstack:\n{0}", stackInfo != null ? stackInfo->ToString() : ">not available<");
-			std::cout << errMsg << std::endl;
-			if (outp != null)
-			{
-				outp->WriteLine(errMsg);
-			}
+			WriteError(errMsg, outp);
 			if (verboseErrorOutput)
 			{
-				/*Console.WriteLine*/std::cout << ("\nNative callstack:") << std::endl;
+				WriteError("\nNative callstack:", outp);
 				errMsg = string::Format("Exception in eval(): {0} \ndata={1}", "exc->ToString()", "exc.Data");
-				/*Console.WriteLine*/std::cout << errMsg << std::endl;
-				if (outp != null)
-				{
-					outp->WriteLine(errMsg);
-				}
+				WriteError(errMsg, outp);
 			}
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
-- 
2.43.0

