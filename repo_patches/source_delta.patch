From 1e4124a1e8222ac630929d0fbbffc78e8b66a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 001/305] fix: Date accepted day, ordinal and week zero

Date(absoluteDay=0), Date(ordinalDay=0) and week zero were taken for
missing values, so dates that do not exist were silently turned into
others, e.g. 1969-000 into 1969 and 0001-01-01 less one day into itself.
---
 pyslet/pyslet/iso8601.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 6310356..74bff8c 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -181,11 +181,11 @@ class Date(object):
 	def __init__(self,src=None,base=None,century=None,decade=None,year=None,month=None,day=None,week=None,weekday=None,ordinalDay=None,absoluteDay=None):
 		if src is None:
 			# explicit form
-			if absoluteDay:
+			if absoluteDay is not None:
 				self._SetFromAbsoluteDay(absoluteDay)
-			elif decade or week or weekday:
+			elif decade is not None or week is not None or weekday is not None:
 				self._SetFromWeekDay(century,decade,year,week,weekday,base)
-			elif ordinalDay:
+			elif ordinalDay is not None:
 				self._SetFromOrdinalDay(century,year,ordinalDay,base)
 			elif century is None and base is None:
 				# use the origin, but everything else must be None too
@@ -377,7 +377,7 @@ class Date(object):
 		else:
 			if weekday<=0 or weekday>7:
 				raise DateTimeError("weekday %i out of range"%weekday)
-		if week is not None and (week<0 or week>53):
+		if week is not None and (week<1 or week>53):
 			raise DateTimeError("week %i out of range"%week)
 		if year is not None and (year<0 or year>9):
 			raise DateTimeError("year %i within decade is out of range")
-- 
2.43.0


From 99ebb8b0beebf59d3154fc818b91b9ca1fb9e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 002/305] fix: Date.Offset with mixed or negative offsets

The day of the month came from the original date even when days or weeks
were offset too, and months and years were not carried downwards.
---
 pyslet/pyslet/iso8601.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 74bff8c..1a2df04 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -549,13 +549,13 @@ class Date(object):
 			baseDay+=days+7*weeks
 			d=type(self)(absoluteDay=baseDay)
 		if months or years or centuries:
-			day=self.day
+			day=d.day
 			month=d.month+months
-			if month>12:
+			if month<1 or month>12:
 				years+=(month-1)//12
 				month=(month-1)%12+1
 			year=d.year+years
-			if year>99:
+			if year<0 or year>99:
 				centuries+=year//100
 				year=year%100
 			century=d.century+centuries
-- 
2.43.0


From 62e65e499b71e373fb15bdc279a83f7502182504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 003/305] fix: comparing a Date with a week precision Date
 raised the wrong error

__cmp__ documents ValueError for different precisions but formatting the
message raised DateTimeError because week precision has no calendar form.
---
 pyslet/pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 1a2df04..5a8da01 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -916,7 +916,7 @@ class Date(object):
 		if not isinstance(other,Date):
 			raise TypeError
 		if self.GetPrecision()!=other.GetPrecision():
-			raise ValueError("Incompatible precision for comparison: "+str(other))
+			raise ValueError("Incompatible precision for comparison: "+repr(other))
 		result=cmp(self.century,other.century)
 		if not result:
 			result=cmp(self.year,other.year)
-- 
2.43.0


From 297a56d523e0e745fcb751f283754057e0a07702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 004/305] fix: truncated week dates did not carry from the
 decade into the century

---
 pyslet/pyslet/iso8601.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 5a8da01..e0fdf49 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -417,6 +417,9 @@ class Date(object):
 					if self.year<baseYear or (self.year==baseYear and (
 						self.week<baseWeek or (self.week==baseWeek and self.day<baseWeekday))):
 						self.year+=(baseDecade+1)*10
+						if self.year>99:
+							self.year-=100
+							self._AddCentury()
 					else:
 						self.year+=baseDecade*10
 			else:
-- 
2.43.0


From 785081d1fa1077400ae8dbe9cf2e1bbc92869e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:27 +0000
Subject: [PATCH 005/305] fix: Time.WithZoneString raised NameError

---
 pyslet/pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index e0fdf49..42d8ba8 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1410,7 +1410,7 @@ class Time(object):
 		if type(zoneStr) in StringTypes:
 			p=ISO8601Parser(zoneStr)
 			zDirection,zHour,zMinute,format=p.ParseTimeZoneFormat()
-			return self.WithZone(zDirection=zDireciton,zHour=zHour,zMinute=zMinute)
+			return self.WithZone(zDirection=zDirection,zHour=zHour,zMinute=zMinute)
 		else:
 			raise TypeError
 		
-- 
2.43.0


From 0344df0c7e96035cd0d76b2795ef81bf1088ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 006/305] fix: TimePoint.WithPrecision did not accept the
 precision it documents

---
 pyslet/pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 42d8ba8..a4efa57 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -2270,7 +2270,7 @@ class TimePoint(object):
 		representing the precision of this TimePoint."""
 		return self.time.GetPrecision()
 	
-	def WithPrecision(self):
+	def WithPrecision(self,precision,truncate=False):
 		"""Constructs a :py:class:`TimePoint` instance from an existing
 		TimePoint but with the precision specified by *precision*.  For
 		more details see :py:meth:`Time.WithPrecision`"""
-- 
2.43.0


From a69c4d4d19c3027c4e6ca082a008bfa447495482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 007/305] fix: fractional minutes between 59 and 60 were
 refused

---
 pyslet/pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index a4efa57..c3dd2a0 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1705,7 +1705,7 @@ class Time(object):
 			return
 		if not type(self.hour) is IntType:
 			raise DateTimeError("bad fractional hour %s"%str(self.hour))
-		if self.minute<0 or self.minute>59:
+		if self.minute<0 or self.minute>=60:
 			raise DateTimeError("minute out of range %s"%str(self.minute))
 		if self.second is None:
 			return
-- 
2.43.0


From 306d4d8e8fdca4294d5678fc6f466d9d48526d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 008/305] fix: Time.ShiftZone raised for shifts that cross more
 than one day

---
 pyslet/pyslet/iso8601.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index c3dd2a0..3e0feaa 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1328,8 +1328,9 @@ class Time(object):
 		
 			(<Time instance>, overflow)
 		
-		overflow is one of -1, 0 or 1 indicating if the time over- or
-		under-flowed as a result of the time zone shift."""
+		overflow is the number of days, typically one of -1, 0 or 1, that
+		the time over- or under-flowed as a result of the time zone
+		shift."""
 		if self.zOffset is None:
 			raise DateTimeError("Can't shift time with unspecified zone: "+str(self))
 		if zDirection is None or (zDirection!=0 and zHour is None):
@@ -1356,14 +1357,8 @@ class Time(object):
 				hour-=1
 				minute+=60
 		hour=hour+zShift//60
-		if hour>23:
-			hour-=24
-			overflow=1
-		elif hour<0:
-			hour+=24
-			overflow=-1
-		else:
-			overflow=0
+		overflow=int(hour//24)
+		hour=hour%24
 		return type(self)(hour=hour,minute=minute,second=second,zDirection=zDirection,zHour=zHour,zMinute=zMinute),overflow
 
 	@classmethod
-- 
2.43.0


From 3f9732fd4cc3b0df9d0a977e8674146b52e644f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 009/305] fix: Time.Offset with fractional or negative
 fractional offsets

The fraction was added twice to minutes and hours, a fractional carry into
the hours raised an error, and negative fractions gave negative components.
---
 pyslet/pyslet/iso8601.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 3e0feaa..02606af 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1275,8 +1275,8 @@ class Time(object):
 				raise DateTimeError("second precision required")
 			second=second+seconds
 			if type(second)==FloatType:
-				fs,s=modf(second)
-				s=int(s)
+				s=int(floor(second))
+				fs=second-s
 				minutes+=s//60
 				second=float(s%60)+fs
 			else:
@@ -1290,10 +1290,10 @@ class Time(object):
 			if type(minute)==FloatType:
 				if second is not None:
 					raise DateTimeError("minute precision required")
-				fm,m=modf(minute)
-				m=int(m)
-				hours+=minute//60
-				minute=float(minute%60)+fm
+				m=int(floor(minute))
+				fm=minute-m
+				hours+=m//60
+				minute=float(m%60)+fm
 			else:
 				hours+=minute//60
 				minute=minute%60
@@ -1303,10 +1303,10 @@ class Time(object):
 			if type(hour)==FloatType:
 				if minute is not None:
 					raise DateTimeError("hour precision required")
-				fh,h=modf(hour)
-				h=int(h)
-				days+=float(h//24)
-				hour=float(hour%24)+fh
+				h=int(floor(hour))
+				fh=hour-h
+				days+=h//24
+				hour=float(h%24)+fh
 			else:
 				days+=hour//24
 				hour=hour%24
-- 
2.43.0


From b3944745c9798b1a3b28160ad652c897352eb672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 010/305] fix: Duration.GetString returned None for durations
 in weeks

---
 pyslet/pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 02606af..45db495 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -2486,7 +2486,7 @@ class Duration:
 			else:
 				return 'P'+datePart
 		else:
-			pass					
+			return 'P%iW'%self.weeks
 				
 	def SetFromDuration(self,src):
 		self.years=src.years
-- 
2.43.0


From 98c2bc8608a7f3c7f08130fa5d5863a7f5a55116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 011/305] fix: URI.Relative lost path or query for ancestors,
 equal paths and colons

U.Relative(B) was empty when U's path is an ancestor of B's, or equal to it
with another query, so resolving it against B did not give U back; a first
segment that is empty or holds a colon was read as a path or scheme.
---
 pyslet/pyslet/rfc2396.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index 07c79ff..ae5d344 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -303,22 +303,15 @@ def NormalizeSegments(pathSegments):
 		pathSegments.append('')
 		
 def RelativizeSegments(pathSegments,baseSegments):
-	result=[]
-	pos=0
-	while pos<len(baseSegments):
-		if result:
-			result=['..']+result
-		else:
-			if pos>=len(pathSegments) or baseSegments[pos]!=pathSegments[pos]:
-				result=result+pathSegments[pos:]
-		pos=pos+1
-	if not result and len(pathSegments)>len(baseSegments):
-		# full match but pathSegments is longer
-		return pathSegments[len(baseSegments)-1:]
-	elif result==['']:
-		return ['.']+result
-	else:
-		return result
+	common=0
+	limit=min(len(pathSegments),len(baseSegments))-1
+	while common<limit and pathSegments[common]==baseSegments[common]:
+		common+=1
+	result=['..']*(len(baseSegments)-1-common)+pathSegments[common:]
+	if result and (result[0]=='' or ':' in result[0]):
+		# must not look like an empty or absolute path, or a scheme
+		result=['.']+result
+	return result
 	
 def MakeRelPathAbs(absPath,basePath):
 	"""Return absPath relative to basePath"""
@@ -811,6 +804,9 @@ class URI(object):
 				relPath=MakeRelPathAbs(self.absPath,base.absPath)
 				# todo: /a/b relative to /c/d really should be '/a/b' and not ../a/b
 				# in particular, drive letters look wrong in relative paths: ../C:/Program%20Files/
+			if self.absPath==base.absPath and self.relPath==base.relPath and self.query==base.query:
+				# same document, only the fragment is needed
+				return URIFactory.URI('' if self.fragment is None else '#'+self.fragment)
 		result=[]
 		if authority is not None:
 			result.append('//')
-- 
2.43.0


From 1a6bc55c829a8d34902c60f8e3118598112877eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 012/305] fix: ]]> in content hung the XML parser

---
 pyslet/pyslet/xml20081126/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 78a68d0..f586e70 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -785,7 +785,7 @@ class XMLParser:
 		while self.theChar is not None:
 			if self.theChar=='<' or self.theChar=='&':
 				break
-			if self.theChar==']':
+			if self.theChar==']' and not self.dontCheckWellFormedness:
 				if self.ParseLiteral(']]>'):
 					self.BuffText(']]>')
 					break
@@ -1676,6 +1676,8 @@ class XMLParser:
 				else:
 					# leave the absence of an end tag for ParseElement to worry about
 					return True
+			elif self.theChar==']' and not self.dontCheckWellFormedness and self.ParseLiteral(']]>'):
+				self.WellFormednessError("[14] CharData: ]]> not allowed in content")
 			else:
 				pcdata=self.ParseCharData()
 				if pcdata and not self.UnhandledData(pcdata):
-- 
2.43.0


From c0f5ce4ddf7d8e9bab2dbab273a77557307c016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 013/305] fix: unterminated comments, processing instructions
 and -- in comments were accepted

---
 pyslet/pyslet/xml20081126/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index f586e70..7b8bb7e 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -844,6 +844,8 @@ class XMLParser:
 				if nHyphens<2:
 					data.append('-'*nHyphens+self.theChar)
 					nHyphens=0
+				elif not self.dontCheckWellFormedness:
+					self.WellFormednessError("-- in Comment")
 				# space does not change the hyphen count
 				self.NextChar()
 			else:
@@ -854,6 +856,9 @@ class XMLParser:
 					nHyphens=0
 				data.append(self.theChar)
 				self.NextChar()
+		else:
+			if not self.dontCheckWellFormedness:
+				self.WellFormednessError(production+": Unexpected end of file")
 		return string.join(data,'')
 				
 	def ParsePI(self,gotLiteral=False):
@@ -883,6 +888,9 @@ class XMLParser:
 						data.append('?')
 				data.append(self.theChar)
 				self.NextChar()
+			else:
+				if not self.dontCheckWellFormedness:
+					self.WellFormednessError(production+": Unexpected end of file")
 		else:
 			self.CheckPEBetweenDeclarations(dEntity)
 			self.ParseRequiredLiteral('?>',production)
-- 
2.43.0


From 7def83adc2363334adb0536b054ed044d8e22631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 014/305] fix: processing instruction without a target raised
 AttributeError

---
 pyslet/pyslet/xml20081126/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 7b8bb7e..da91260 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -901,7 +901,7 @@ class XMLParser:
 
 	def ParsePITarget(self):
 		"""[17] PITarget: parses a processing instruction target name"""
-		name=self.ParseName()
+		name=self.ParseRequiredName("[17] PITarget")
 		if name.lower()=='xml':
 			self.BuffText(name)
 			self.WellFormednessError("[17] PITarget: Illegal target: %s"%name)
-- 
2.43.0


From 5a6fcf7e8fee48383361db4692c5fad3454e1a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 015/305] fix: illegal characters were accepted by the XML
 parser (and PIs ending ??> refused)

---
 pyslet/pyslet/xml20081126/parser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index da91260..0fea489 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -486,6 +486,14 @@ class XMLParser:
 
 	#	Production [2] is implemented with the function IsChar
 
+	def CheckChar(self,production="[2] Char"):
+		"""[2] Char: checks that the current character is a legal XML character.
+		
+		Raises a well-formedness error if it isn't, unless
+		:py:attr:`dontCheckWellFormedness` is set."""
+		if not IsChar(self.theChar) and not self.dontCheckWellFormedness:
+			self.WellFormednessError("%s: Illegal character %s"%(production,repr(self.theChar)))
+
 	def IsS(self):
 		"""By default just calls the module level :py:func:`~pyslet.xml20081126.structures.IsS`
 		
@@ -714,6 +722,7 @@ class XMLParser:
 				elif self.theChar=='<':
 					self.WellFormednessError("No < in Attribute Values")
 				else:
+					self.CheckChar(production)
 					value.append(self.theChar)
 					self.NextChar()
 			except XMLWellFormedError:
@@ -790,6 +799,7 @@ class XMLParser:
 					self.BuffText(']]>')
 					break
 			self.IsS()		# force Unicode compatible white space handling
+			self.CheckChar("[14] CharData")
 			data.append(self.theChar)
 			self.NextChar()
 			if len(data)>=XMLEntity.ChunkSize:
@@ -854,6 +864,7 @@ class XMLParser:
 						self.WellFormednessError("-- in Comment")
 					data.append('-'*nHyphens)									
 					nHyphens=0
+				self.CheckChar(production)
 				data.append(self.theChar)
 				self.NextChar()
 		else:
@@ -886,6 +897,8 @@ class XMLParser:
 					else:
 						# just a single '?'
 						data.append('?')
+						continue
+				self.CheckChar(production)
 				data.append(self.theChar)
 				self.NextChar()
 			else:
@@ -936,6 +949,7 @@ class XMLParser:
 			if self.ParseLiteral(cdEnd):
 				self.BuffText(cdEnd)
 				break
+			self.CheckChar("[20] CData")
 			data.append(self.theChar)
 			self.NextChar()
 			if len(data)>=XMLEntity.ChunkSize:
-- 
2.43.0


From b7a415096dc66a40f126de7de2e41082103ce30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 016/305] fix: a later entity declaration replaced the first,
 binding, one

---
 pyslet/pyslet/xml20081126/structures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 5cf8839..8d67dbb 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -798,9 +798,10 @@ class XMLDTD(object):
 		value of *entity* can be either an :py:class:`XMLGeneralEntity` or an
 		:py:class:`XMLParameterEntity` instance."""
 		if isinstance(entity,XMLGeneralEntity):
-			self.generalEntities[entity.name]=entity
+			# the first declaration is binding
+			self.generalEntities.setdefault(entity.name,entity)
 		elif isinstance(entity,XMLParameterEntity):
-			self.parameterEntities[entity.name]=entity
+			self.parameterEntities.setdefault(entity.name,entity)
 		else:
 			raise ValueError
 
-- 
2.43.0


From fa7fb4f38346da738392858f67c9b9705e4d5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 017/305] fix: reference to an undeclared entity in an
 attribute value raised TypeError

---
 pyslet/pyslet/xml20081126/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 0fea489..3eb89ca 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -2428,6 +2428,7 @@ class XMLParser:
 					self.WellFormednessError("Entity Declared: undeclared general entity %s in standalone document"%name)
 				else:
 					self.ValidityError("Entity Declared: undeclared general entity %s"%name)
+					return ''
 	
 	def LookupPredefinedEntity(self,name):
 		"""Utility function used to look up pre-defined entities, e.g., "lt"
-- 
2.43.0


From f0ee9bbfce2782c48b94df79861bc2ae963e3267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 018/305] fix: character references beyond U+10FFFF raised
 ValueError

---
 pyslet/pyslet/xml20081126/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 3eb89ca..19f7209 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -2327,11 +2327,14 @@ class XMLParser:
 		if self.ParseLiteral('x'):
 			qualifier='x'
 			digits=self.ParseRequiredHexDigits(production)
-			data=unichr(int(digits,16))
+			code=int(digits,16)
 		else:
 			qualifier=''
 			digits=self.ParseRequiredDecimalDigits(production)
-			data=unichr(int(digits))
+			code=int(digits)
+		if code>0x10FFFF:
+			self.WellFormednessError("Legal Character: &#%s%s; does not match production for Char"%(qualifier,digits))
+		data=unichr(code)
 		self.ParseRequiredLiteral(';',production)
 		if self.refMode==XMLParser.RefModeInDTD:
 			raise XMLForbiddenEntityReference("&#%s%s; forbidden by context"%(qualifier,digits))
-- 
2.43.0


From c3455919741945a3eafb129640a2b68dd1e9efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 019/305] fix: bad content specification raised TypeError
 instead of a well-formedness error

---
 pyslet/pyslet/xml20081126/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 19f7209..eb52772 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1799,7 +1799,7 @@ class XMLParser:
 				eType.contentType=ElementType.ElementContent
 				eType.contentModel=self.ParseChildren(True,groupEntity)
 		else:
-			self.WellFormednessError(production,": expected 'EMPTY', 'ANY' or '('")
+			self.WellFormednessError(production+": expected 'EMPTY', 'ANY' or '('")
 			
 	def ParseChildren(self,gotLiteral=False,groupEntity=None):
 		"""[47] children: parses an element content model comprising children.
-- 
2.43.0


From 3355e5cffe431d799913694e73fdc5423cccd7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 020/305] fix: comments and PIs in undeclared elements raised
 AttributeError when validating

---
 pyslet/pyslet/xml20081126/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index eb52772..b38514d 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1651,7 +1651,7 @@ class XMLParser:
 					if self.theChar=='-':
 						self.ParseRequiredLiteral('--')
 						self.ParseComment(True)
-						if self.checkValidity and self.elementType.contentType==ElementType.Empty:
+						if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
 							self.ValidityError("Element Valid: comment not allowed in element declared EMPTY: %s"%self.elementType.name)
 					elif self.theChar=='[':
 						self.ParseRequiredLiteral('[CDATA[')
@@ -1668,7 +1668,7 @@ class XMLParser:
 					# PI
 					self.NextChar()
 					self.ParsePI(True)
-					if self.checkValidity and self.elementType.contentType==ElementType.Empty:
+					if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
 						self.ValidityError("Element Valid: processing instruction not allowed in element declared EMPTY: %s"%self.elementType.name)
 				elif self.theChar!='/':
 					# element
-- 
2.43.0


From 9c50114970a7fa1ec0c92cede4078f785c5de182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 021/305] fix: #FIXED attributes were not defaulted and
 reported invalid when omitted

---
 pyslet/pyslet/xml20081126/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index b38514d..c7d44f0 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1387,7 +1387,7 @@ class XMLParser:
 				value=attrs.get(a,None)
 				if value is None:
 					# check for default
-					if aDef.presence==XMLAttributeDefinition.Default:
+					if aDef.presence in (XMLAttributeDefinition.Default,XMLAttributeDefinition.Fixed):
 						attrs[a]=aDef.defaultValue
 						if checkStandalone:
 							self.ValidityError("Standalone Document Declaration: specification for attribute %s required (externally defined default)"%a)
@@ -1403,8 +1403,8 @@ class XMLParser:
 							self.ValidityError("Standalone Document Declaration: specification for attribute %s altered by normalization (externally defined tokenized type)"%a)
 						attrs[a]=newValue
 				if aDef.presence==XMLAttributeDefinition.Fixed:
-					if value!=aDef.defaultValue:
-						self.ValidityError("Fixed Attribute Default: %s must match the #FIXED value %s"%(value,aDef.defaultValue))						
+					if attrs[a]!=aDef.defaultValue:
+						self.ValidityError("Fixed Attribute Default: %s must match the #FIXED value %s"%(attrs[a],aDef.defaultValue))						
 		if self.checkValidity:
 			for a in attrs.keys():
 				if aList:
-- 
2.43.0


From d48c34f2568876144848cc9472a83bc8fac461e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 022/305] fix: unresolved IDREF message did not name the IDREF

---
 pyslet/pyslet/xml20081126/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index c7d44f0..e4e00a9 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -430,7 +430,7 @@ class XMLParser:
 		if self.checkValidity:
 			for idref in self.idRefTable.keys():
 				if not idref in self.idTable:
-					self.ValidityError("IDREF: %s does not match any ID attribute value")
+					self.ValidityError("IDREF: %s does not match any ID attribute value"%idref)
 		self.ParseMisc()
 		if self.theChar is not None and not self.dontCheckWellFormedness:
 			self.WellFormednessError("Unparsed characters in entity after document: %s"%repr(self.theChar))
-- 
2.43.0


From 4623c0e30e4a70af469da5bcbf51830823b658f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 023/305] fix: tags, comments, PIs and references that span
 entities were accepted

---
 pyslet/pyslet/xml20081126/parser.py | 48 +++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index e4e00a9..1c49f85 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -151,6 +151,28 @@ class XMLParser:
 				self.entity=self.entityStack.pop()
 				self.theChar=self.entity.theChar
 
+	def CheckEntityNesting(self,startEntity):
+		"""Checks that the current character is in *startEntity*.
+		
+		Logical structures (tags, elements, comments, references...) must begin
+		and end in the same entity.  A well-formedness error is raised if that
+		isn't the case, unless :py:attr:`dontCheckWellFormedness` is set."""
+		if self.entity is not startEntity and not self.dontCheckWellFormedness:
+			self.WellFormednessError("Logical structure must begin and end in the same entity")
+
+	def CheckRecursion(self,e,entity):
+		"""Checks that opening *e* from *entity* is not recursive.
+		
+		An entity is closed as soon as its last character has been read so we
+		can't rely on :py:meth:`XMLEntity.IsOpen` to detect a recursive reference
+		at the end of the replacement text."""
+		x=entity
+		while x is not None:
+			if x is e:
+				self.WellFormednessError("No Recursion: entity %s is already open"%e.GetName())
+			x=x.openedFrom
+		e.openedFrom=entity
+
 	def BuffText(self,unusedChars):
 		if unusedChars:
 			if self.buff:
@@ -840,6 +862,8 @@ class XMLParser:
 			elif self.theChar=='>':
 				if nHyphens==2:
 					self.CheckPEBetweenDeclarations(cEntity)
+					if self.element:
+						self.CheckEntityNesting(cEntity)
 					self.NextChar()
 					break
 				elif nHyphens<2:
@@ -892,6 +916,8 @@ class XMLParser:
 				if self.theChar=='?':
 					self.NextChar()
 					if self.theChar=='>':
+						if self.element:
+							self.CheckEntityNesting(dEntity)
 						self.NextChar()
 						break
 					else:
@@ -906,6 +932,8 @@ class XMLParser:
 					self.WellFormednessError(production+": Unexpected end of file")
 		else:
 			self.CheckPEBetweenDeclarations(dEntity)
+			if self.element:
+				self.CheckEntityNesting(dEntity)
 			self.ParseRequiredLiteral('?>',production)
 		if self.element:
 			self.element.ProcessingInstruction(target,string.join(data,''))
@@ -945,7 +973,10 @@ class XMLParser:
 		
 		This method adds any parsed data to the current element."""
 		data=[]
+		dEntity=self.entity
 		while self.theChar is not None:
+			if self.theChar==cdEnd[0]:
+				self.CheckEntityNesting(dEntity)
 			if self.ParseLiteral(cdEnd):
 				self.BuffText(cdEnd)
 				break
@@ -1253,6 +1284,7 @@ class XMLParser:
 		saveElement=self.element
 		saveElementType=self.elementType
 		saveCursor=None
+		sEntity=self.entity
 		if self.sgmlOmittag and self.theChar!='<':
 			# Leading data means the start tag was omitted (perhaps at the start of the doc)
 			name=None
@@ -1330,6 +1362,7 @@ class XMLParser:
 						break
 			else:
 				while self.ParseContent():		# otherwise content detected end of element (so end tag was omitted)
+					self.CheckEntityNesting(sEntity)
 					endName=self.ParseETag()
 					if endName==name:
 						break
@@ -1550,6 +1583,7 @@ class XMLParser:
 			tag."""
 		production="[40] STag"
 		empty=False
+		sEntity=self.entity
 		self.ParseRequiredLiteral('<')
 		name=self.ParseRequiredName()
 		attrs={}
@@ -1557,9 +1591,11 @@ class XMLParser:
 			try:
 				s=self.ParseS()
 				if self.theChar=='>':
+					self.CheckEntityNesting(sEntity)
 					self.NextChar()
 					break
 				elif self.theChar=='/':
+					self.CheckEntityNesting(sEntity)
 					self.ParseRequiredLiteral('/>')
 					empty=True
 					break
@@ -1611,6 +1647,7 @@ class XMLParser:
 		
 		The method returns the name of the end element parsed."""
 		production="[42] ETag"
+		sEntity=self.entity
 		if not gotLiteral:
 			self.ParseRequiredLiteral('</')
 		name=self.ParseRequiredName(production)
@@ -1623,6 +1660,7 @@ class XMLParser:
 					break
 				self.NextChar()
 		else:	
+			self.CheckEntityNesting(sEntity)
 			self.ParseRequiredLiteral('>',production)
 		return name
 							
@@ -1644,17 +1682,21 @@ class XMLParser:
 		while True:
 			if self.theChar=='<':
 				# element, CDSect, PI or Comment
+				mEntity=self.entity
 				self.NextChar()
+				self.CheckEntityNesting(mEntity)
 				if self.theChar=='!':
 					# CDSect or Comment
 					self.NextChar()
 					if self.theChar=='-':
 						self.ParseRequiredLiteral('--')
+						self.CheckEntityNesting(mEntity)
 						self.ParseComment(True)
 						if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
 							self.ValidityError("Element Valid: comment not allowed in element declared EMPTY: %s"%self.elementType.name)
 					elif self.theChar=='[':
 						self.ParseRequiredLiteral('[CDATA[')
+						self.CheckEntityNesting(mEntity)
 						# can CDATA sections imply missing markup?
 						if self.sgmlOmittag and not self.element.IsMixed():
 							# CDATA can only be put in elements that can contain data!
@@ -1667,6 +1709,7 @@ class XMLParser:
 				elif self.theChar=='?':
 					# PI
 					self.NextChar()
+					self.CheckEntityNesting(mEntity)
 					self.ParsePI(True)
 					if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
 						self.ValidityError("Element Valid: processing instruction not allowed in element declared EMPTY: %s"%self.elementType.name)
@@ -2351,7 +2394,10 @@ class XMLParser:
 		character reference this will be the character referred to.  For a
 		general entity the data returned will depend on the parsing context. For
 		more information see :py:meth:`ParseEntityRef`."""
+		rEntity=self.entity
 		self.ParseRequiredLiteral('&',"[67] Reference")
+		if self.refMode!=XMLParser.RefModeInEntityValue:
+			self.CheckEntityNesting(rEntity)
 		if self.theChar=='#':
 			return self.ParseCharRef(True)
 		else:
@@ -2397,6 +2443,8 @@ class XMLParser:
 		if self.dontCheckWellFormedness:
 			self.ParseLiteral(';')
 		else:
+			if self.refMode!=XMLParser.RefModeInEntityValue:
+				self.CheckEntityNesting(entity)
 			self.ParseRequiredLiteral(';',production)
 		if self.refMode==XMLParser.RefModeInEntityValue:
 			return "&%s;"%name
-- 
2.43.0


From d48ea91ff7665cf8119721a87097014a797dc929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 024/305] fix: mutually recursive entities hung the parser

---
 pyslet/pyslet/xml20081126/parser.py     | 2 ++
 pyslet/pyslet/xml20081126/structures.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 1c49f85..e2b4173 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -2472,6 +2472,7 @@ class XMLParser:
 							# have been closed so we must check the context of the
 							# reference # too, not just whether it is currently open
 							self.WellFormednessError("No Recursion: entity &%s; is already open"%name)
+						self.CheckRecursion(e,entity)
 						e.Open()
 						self.PushEntity(e)
 					return ''
@@ -2542,6 +2543,7 @@ class XMLParser:
 					non-validating processors are not required to read them"""
 					if e.IsOpen() or (e is entity):
 						self.WellFormednessError("No Recursion: entity %%%s; is already open"%name)					
+					self.CheckRecursion(e,entity)
 					if self.refMode==XMLParser.RefModeInEntityValue:
 						# Parameter entities are fed back into the parser somehow
 						e.Open()
diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 8d67dbb..aaf38e2 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2591,6 +2591,7 @@ class XMLEntity(object):
 		self.chars=''
 		self.charPos=None
 		self.ignoreLF=None
+		self.openedFrom=None	#: the entity that contained the reference used to open this one
 		self.flags={}
 		if type(src) is UnicodeType:
 			self.OpenUnicode(src)
-- 
2.43.0


From 96310e974ccef99558660aefe643b23e1165dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 025/305] fix: reading a file with a UTF-8 byte order mark
 raised NameError

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index aaf38e2..12af68b 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2858,7 +2858,7 @@ class XMLEntity(object):
 			if magic[2:]!='\x00\x00':
 				magic=magic[:2]
 		elif magic[:3]=='\xef\xbb\xbf':
-			magic=mage[:3]
+			magic=magic[:3]
 		self.encoding,seekPos,self.bom=self.MagicTable.get(magic,('utf-8',0,False))
 		srcFile.seek(seekPos)
 	
-- 
2.43.0


From 22e1d9ad342b58b06f7ab2307994e97afcf03f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 026/305] fix: undefined exception names raised NameError when
 opening entities

---
 pyslet/pyslet/xml20081126/structures.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 12af68b..0019210 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2637,7 +2637,7 @@ class XMLEntity(object):
 		if self.location:
 			self.OpenURI(self.location)
 		else:
-			raise UnimplementedError
+			raise XMLUnimplementedError
 	
 	def IsOpen(self):
 		"""Returns True if the entity is open for reading."""
@@ -2723,7 +2723,7 @@ class XMLEntity(object):
 				if mtype is None:
 					# We'll attempt to do this with xml and utf8
 					charset='utf8'
-					raise UnimplementedError
+					raise XMLUnimplementedError
 				else:
 					self.mimetype=mtype.type.lower()+'/'+mtype.subtype.lower()
 					respEncoding=mtype.parameters.get('charset',None)
@@ -2742,7 +2742,7 @@ class XMLEntity(object):
 			else:	
 				raise XMLUnexpectedHTTPResponse(str(req.status)+" "+str(req.response.reason))
 		else:
-			raise XMLUnsupportedScheme			
+			raise XMLUnsupportedSchemeError(src.scheme)
 		
 	def OpenHTTPResponse(self,src,encoding='utf-8'):
 		"""Opens the entity from an HTTP response passed in *src*.
@@ -2758,7 +2758,7 @@ class XMLEntity(object):
 		if mtype is None:
 			# We'll attempt to do this with xml and utf8
 			charset='utf8'
-			raise UnimplementedError
+			raise XMLUnimplementedError
 		else:
 			self.mimetype=mtype.type.lower()+'/'+mtype.subtype.lower()
 			respEncoding=mtype.parameters.get('charset',None)
@@ -2969,7 +2969,7 @@ class XMLDeclaredEntity(XMLEntity):
 		elif type(self.definition) is UnicodeType:
 			self.OpenUnicode(self.definition)
 		elif isinstance(self.definition,XMLExternalID):
-			XMLEntity.Open(self)	# open from location or raise UnimplementedError
+			XMLEntity.Open(self)	# open from location or raise XMLUnimplementedError
 			# Now to handle the text declaration
 			from pyslet.xml20081126.parser import XMLParser
 			p=XMLParser(self)
-- 
2.43.0


From 5fee90681e902c9dcb7964e442221a51929f3cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 027/305] fix: GetValue ignored ignoreElements

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 0019210..fb38d0d 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -1831,7 +1831,7 @@ class Element(Node):
 		
 			# to behave like this:
 			data.GetValue(True)==u"This is  value" """
-		return string.join(self.GenerateValue(),u'')
+		return string.join(self.GenerateValue(ignoreElements),u'')
 
 	def SetValue(self,value):
 		"""Replaces the value of the element with the (unicode) value.
-- 
2.43.0


From da682d2f759cc30406c6d1a07faac76d972863ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 028/305] fix: subMatch was not passed on when finding nested
 children

---
 pyslet/pyslet/xml20081126/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index fb38d0d..3694318 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -1655,7 +1655,7 @@ class Element(Node):
 		if maxDepth:
 			for child in self.GetChildren():
 				if isinstance(child,Element) and (subMatch or not isinstance(child,childClass)):
-					for c in child.FindChildrenBreadthFirst(childClass,maxDepth):
+					for c in child.FindChildrenBreadthFirst(childClass,subMatch,maxDepth):
 						yield c
 
 	def FindChildrenDepthFirst(self,childClass,subMatch=True,maxDepth=1000):
@@ -1679,7 +1679,7 @@ class Element(Node):
 				if not subMatch:
 					continue
 			if isinstance(child,Element) and maxDepth>0:
-				for c in child.FindChildrenDepthFirst(childClass,maxDepth):
+				for c in child.FindChildrenDepthFirst(childClass,subMatch,maxDepth):
 					yield c
 				
 	def FindParent(self,parentClass):
-- 
2.43.0


From 1f663d0debfe5839c28c873ad7bf441a3a12f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 029/305] fix: SetID with an id already in use unregistered the
 owner

---
 pyslet/pyslet/xml20081126/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 3694318..bd78fed 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -1172,6 +1172,8 @@ class Element(Node):
 			raise XMLIDValueError(id)
 		doc=self.GetDocument()
 		if doc:
+			if id!=self.id and doc.GetElementByID(id) is not None:
+				raise XMLIDClashError
 			doc.UnregisterElement(self)
 			self.id=id
 			doc.RegisterElement(self)
-- 
2.43.0


From 5c045477889e615dab8b186d665b0bd66abca576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 030/305] fix: GetAttributeDefinition raised NameError

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index bd78fed..51962e8 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -881,7 +881,7 @@ class XMLDTD(object):
 		
 		The method returns an instance of :py:class:`XMLAttributeDefinition` or
 		None if no attribute matching this description has been declared."""		
-		aList=self.attributeLists.get(name,None)
+		aList=self.attributeLists.get(elementName,None)
 		if aList:
 			return aList.get(attributeName,None)
 		else:
-- 
2.43.0


From bfcb22a1ccc91b64705d0b1c064459e86ff47c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 031/305] fix: CDATA sections were written with the wrong start
 marker

---
 pyslet/pyslet/xml20081126/structures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 51962e8..fdfdbad 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -751,16 +751,16 @@ def IsPubidChar(c):
 
 
 def EscapeCDSect(src):
-	"""Returns a unicode string enclosed in <!CDATA[[ ]]> with ]]> 
-	by the clumsy sequence: ]]>]]&gt;<!CDATA[[
+	"""Returns a unicode string enclosed in <![CDATA[ ]]> with ]]> 
+	by the clumsy sequence: ]]>]]&gt;<![CDATA[
 	
 	Degenerate case: an empty string is returned as an empty string
 	"""
 	data=src.split(u']]>')
 	if data:
-		result=[u'<!CDATA[[',data[0]]
+		result=[u'<![CDATA[',data[0]]
 		for d in data[1:]:
-			result.append(u']]>]]&gt;<!CDATA[[')
+			result.append(u']]>]]&gt;<![CDATA[')
 			result.append(d)
 		result.append(u']]>')
 		return string.join(result,u'')
-- 
2.43.0


From 7df2762ee77375a5eef64ffb59a57bbb5405d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 032/305] fix: Document.Read lost the base URI taken from the
 entity

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index fdfdbad..0bc3cec 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -406,7 +406,7 @@ class Document(Node):
 				self.ReadFromEntity(src)
 				if src.location is not None and self.baseURI is None:
 					# take our baseURI from the entity
-					self.baseURI=self.SetBase(src.location)
+					self.SetBase(src.location)
 			else:
 				self.ReadFromStream(src)
 		elif self.baseURI is None:
-- 
2.43.0


From 7b34653f222b7623bcc97b53adadb70659646d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 033/305] fix: Document constructor failed for a root element
 with an id

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 0bc3cec..447b838 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -245,6 +245,7 @@ class Document(Node):
 		"""The XML declaration (or None if no XMLDeclaration is used)"""
 		self.dtd=None
 		"""The dtd associated with the document."""
+		self.idTable={}
 		self.root=None
 		"""The root element or None if no root element has been created yet."""
 		if root:
@@ -260,7 +261,6 @@ class Document(Node):
 			else:
 				self.root=root(self)
 		self.SetBase(baseURI)
-		self.idTable={}
 
 	def GetChildren(self):
 		"""If the document has a root element it is returned in a single item list,
-- 
2.43.0


From f19b9718fd67a347da803d975fc4133d0f89dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 034/305] fix: tabs and line feeds in attribute values did not
 survive serialising

---
 pyslet/pyslet/xml20081126/structures.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 447b838..9dd71f8 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -73,6 +73,9 @@ def EscapeCharData(src,quote=False):
 			data.append('&gt;')
 		elif c=='\r':
 			data.append('&#xD;')
+		elif quote and c in '\n\t':
+			# would be normalized to a space in an attribute value
+			data.append('&#x%X;'%ord(c))
 		elif c=='"':
 			quot+=1
 			data.append(c)
@@ -132,6 +135,9 @@ def EscapeCharData7(src,quote=False):
 			dst.append("&gt;")
 		elif c=='\r':
 			dst.append("&#xD;")
+		elif quote and c in '\n\t':
+			# would be normalized to a space in an attribute value
+			dst.append('&#x%X;'%ord(c))
 		elif c==q:
 			dst.append(qStr)
 		else:
-- 
2.43.0


From f91529ff92b10862b9426d28dd06a1388a2c018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 035/305] fix: GetValue failed to report mixed content under a
 non-ASCII name

---
 pyslet/pyslet/xml20081126/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 9dd71f8..a18715a 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -1815,7 +1815,7 @@ class Element(Node):
 			if type(child) in StringTypes:
 				yield unicode(child)
 			elif not ignoreElements:
-				raise XMLMixedContentError(str(self))
+				raise XMLMixedContentError(self.__class__.__name__)
 		  
 	def GetValue(self,ignoreElements=False):
 		"""By default, returns a single unicode string representing the element's data.
-- 
2.43.0


From 84635b7e60c224a46057490049f1f20078e9890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 036/305] fix: system identifiers with characters not allowed
 in URIs raised an error

---
 pyslet/pyslet/xml20081126/structures.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index a18715a..2c57c00 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -3050,10 +3050,18 @@ class XMLExternalID(object):
 		Returns a :py:class:`pyslet.rfc2396.URI` resolved against :py:attr:`base` if
 		applicable.  If there is no system identifier then None is returned."""
 		if self.system:
+			# characters that are not allowed in URI must be escaped
+			system=[]
+			for c in self.system:
+				if ord(c)<=0x20 or ord(c)==0x7F or c in '<>"{}|\\^`':
+					system.append("%%%02X"%ord(c))
+				else:
+					system.append(c)
+			system=string.join(system,'')
 			if base:
-				location=URIFactory.Resolve(base,URIFactory.URI(self.system))
+				location=URIFactory.Resolve(base,URIFactory.URI(system))
 			else:
-				location=URIFactory.URI(self.system)
+				location=URIFactory.URI(system)
 			if not location.IsAbsolute():
 				cwd=URIFactory.URLFromPathname(os.path.join(os.getcwd(),os.curdir))
 				location=location.Resolve(cwd)
-- 
2.43.0


From a5a564405459359a02cf8acc93829d05b49242f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 037/305] fix: carriage returns from character references in
 entity values were normalised

---
 pyslet/pyslet/xml20081126/structures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 2c57c00..8be014e 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2599,6 +2599,7 @@ class XMLEntity(object):
 		self.chars=''
 		self.charPos=None
 		self.ignoreLF=None
+		self.normalizeEOL=True	#: False if the characters have already been subject to End-of-Line handling
 		self.openedFrom=None	#: the entity that contained the reference used to open this one
 		self.flags={}
 		if type(src) is UnicodeType:
@@ -2822,7 +2823,7 @@ class XMLEntity(object):
 			self.theChar=None
 		else:
 			self.theChar=self.chars[self.charPos]
-			if self.theChar=='\x0D':
+			if self.theChar=='\x0D' and self.normalizeEOL:
 				# change to a line feed and ignore the next line feed
 				self.theChar='\x0A'
 				self.ignoreLF=True
@@ -2972,6 +2973,8 @@ class XMLDeclaredEntity(XMLEntity):
 		replacement text is encountered.  This requires a small amount of
 		look-ahead which may result in some characters needing to be re-parsed. 
 		We pass this to future parsers using :py:attr:`buffText`."""
+		# a CR in an internal entity's replacement text came from a character reference
+		self.normalizeEOL=self.IsExternal()
 		if type(self.definition) is StringType:
 			self.OpenString(self.definition)
 		elif type(self.definition) is UnicodeType:
-- 
2.43.0


From ce1b9328ef48691a85eb98c0b02e60a6821b473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 038/305] fix: AttributeError reporting expected content of
 EMPTY and ANY elements

---
 pyslet/pyslet/xml20081126/structures.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 8be014e..595900f 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2504,11 +2504,14 @@ class ContentParticleCursor(object):
 		expected={}
 		endTag=None
 		if self.state==ContentParticleCursor.StartState:
-			for name in self.elementType.particleMap.keys():
-				if name:
-					expected[name]=True
-				else:
-					endTag="</%s>"%self.elementType.name
+			if self.elementType.particleMap is None:
+				endTag="</%s>"%self.elementType.name
+			else:
+				for name in self.elementType.particleMap.keys():
+					if name:
+						expected[name]=True
+					else:
+						endTag="</%s>"%self.elementType.name
 		elif self.state==ContentParticleCursor.ParticleState:
 			for p in self.pList:
 				for name in p.particleMap.keys():
-- 
2.43.0


From dfbe003e32e38bd276da01686ddaa8312dbedefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 039/305] fix: empty-element tags were not checked against the
 content model

---
 pyslet/pyslet/xml20081126/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index e2b4173..7827c18 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1342,7 +1342,10 @@ class XMLParser:
 			except XMLValidityError:
 				if self.raiseValidityErrors:
 					raise
-		if not empty:
+		if empty:
+			# the content model must allow the element to be empty
+			self.CheckExpectedParticle('')
+		else:
 			saveDataCount=self.dataCount
 			if self.sgmlContent and getattr(self.element,'SGMLCONTENT',None)==ElementType.SGMLCDATA:
 				# Alternative parsing of SGMLCDATA elements...
-- 
2.43.0


From cb8492ff7afb012c76d6368b371ed0b93a604b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 040/305] fix: parameter entities in declarations accepted in a
 document with no location

---
 pyslet/pyslet/xml20081126/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 7827c18..8c92219 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1170,7 +1170,9 @@ class XMLParser:
 		subsetEntity=self.entity
 		while True:
 			if self.theChar=='<':
-				self.noPERefs=(self.GetExternalEntity() is subsetEntity)
+				externalEntity=self.GetExternalEntity()
+				# there is no external entity when parsing a document with no location
+				self.noPERefs=(externalEntity is None or externalEntity is subsetEntity)
 				self.ParseMarkupDecl()
 				self.noPERefs=False
 			elif self.theChar=='%' or self.IsS():
-- 
2.43.0


From 5d643e42fe3bdaf4f97161dae3e8da68273b825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 041/305] fix: undeclared notations in NOTATION attribute types
 were not reported

---
 pyslet/pyslet/xml20081126/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 8c92219..6f77c33 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1022,6 +1022,12 @@ class XMLParser:
 							aDef=aDefs[aName]
 							if aDef.type==XMLAttributeDefinition.Notation:
 								self.ValidityError("No Notation on Empty Element: attribute %s on element %s cannot have NOTATION type"%(aName,eName))
+			for eName in self.dtd.attributeLists.keys():
+				for aDef in self.dtd.attributeLists[eName].values():
+					if aDef.type==XMLAttributeDefinition.Notation:
+						for notation in aDef.values.keys():
+							if not notation in self.dtd.notations:
+								self.ValidityError("Notation Attributes: notation %s used in declaration of attribute %s has not been declared"%(notation,aDef.name))
 			for eName in self.dtd.generalEntities.keys():
 				eDef=self.dtd.generalEntities[eName]
 				if eDef.notation and not eDef.notation in self.dtd.notations:
-- 
2.43.0


From 95f0a99488e086221960aa95a57d178dd48eaaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 042/305] fix: <?xml-stylesheet at the start of a document
 taken for an XML declaration

---
 pyslet/pyslet/xml20081126/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 6f77c33..36178a9 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -997,7 +997,12 @@ class XMLParser:
 	def ParseProlog(self):
 		"""[22] prolog: parses the document prolog, including the XML declaration and dtd."""
 		production="[22] prolog"
-		if self.ParseLiteral('<?xml'):
+		gotDecl=self.ParseLiteral('<?xml')
+		if gotDecl and IsNameChar(self.theChar):
+			# a processing instruction, e.g., <?xml-stylesheet ... ?>
+			self.BuffText('<?xml')
+			gotDecl=False
+		if gotDecl:
 			self.ParseXMLDecl(True)
 		else:
 			self.declaration=None
-- 
2.43.0


From 4f0026a26e7fe79c44b02940b25eb100d155f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 043/305] fix: second reference to an empty entity refused as
 recursion

---
 pyslet/pyslet/xml20081126/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 36178a9..fa2cf14 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -208,6 +208,8 @@ class XMLParser:
 			# Harsh but fair, if we had reason to believe that this entity used UTF-16 but it
 			# was completely empty (not even a BOM) then that is an error.
 			self.CheckEncoding(entity,None)
+			# there's nothing to parse so nothing else will close it
+			entity.Close()
 		if entity.buffText:
 			self.BuffText(entity.buffText)
 	
-- 
2.43.0


From 74b61e25a57f3860330b991795a948b8f4f81d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 044/305] fix: NSEqualNames raised TypeError without aliases

---
 pyslet/pyslet/xmlnames20091208.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 437d1b9..abedae7 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -624,7 +624,7 @@ def NSEqualNames(baseName,name,nsAliases=None):
 	*baseName*."""
 	if baseName==name:
 		return True
-	else:
+	elif nsAliases:
 		for alias in nsAliases:
 			if (alias,baseName[1])==name:
 				return True
-- 
2.43.0


From 6265f987440ea947b3995c88ff5ad56082ec164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 045/305] fix: document class lookup by expanded name raised
 NameError

---
 pyslet/pyslet/xmlnames20091208.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index abedae7..ebdb1ac 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -554,15 +554,11 @@ class XMLNSParser(XMLParser):
 
 		If no document class can be found, :py:class:`XMLNSDocument` is
 		returned."""
-		rootName=dtd.name
-		if expandedName[0] is None:
-			docClass=XMLParser.NSDocumentClassTable.get(expandedName,None)
-		else:
-			docClass=XMLParser.NSDocumentClassTable.get(expandedName,None)
-			if docClass is None:
-				docClass=XMLParser.DocumentClassTable.get((expandedName[0],None),None)
-			if docClass is None:
-				docClass=XMLParser.DocumentClassTable.get((None,expandedName[1]),None)
+		docClass=self.NSDocumentClassTable.get(expandedName,None)
+		if docClass is None:
+			docClass=self.NSDocumentClassTable.get((expandedName[0],None),None)
+		if docClass is None:
+			docClass=self.NSDocumentClassTable.get((None,expandedName[1]),None)
 		if docClass is None:
 			docClass=XMLNSDocument
 		return docClass
-- 
2.43.0


From 03cca80883bf6b72dd23e14744311e8dd940f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 046/305] fix: attributes whose names start with xmlns were
 dropped

---
 pyslet/pyslet/xmlnames20091208.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index ebdb1ac..28da30b 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -463,13 +463,13 @@ class XMLNSParser(XMLParser):
 		:py:class:`XMLParser`. """
 		ns={}
 		for aname in attrs.keys():
-			if aname.startswith('xmlns'):
-				if len(aname)==5:
-					# default ns declaration
-					ns['']=attrs[aname]
-				elif aname[5]==':':
-					# ns prefix declaration
-					ns[aname[6:]]=attrs[aname]
+			if aname=='xmlns':
+				# default ns declaration
+				ns['']=attrs[aname]
+				del attrs[aname]
+			elif aname.startswith('xmlns:'):
+				# ns prefix declaration
+				ns[aname[6:]]=attrs[aname]
 				del attrs[aname]
 		for aname in attrs.keys():
 			expandedName=self.ExpandQName(aname,ns,False)
-- 
2.43.0


From ae75b6472c74a3abac5e051a67e6a2e1498c8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 047/305] fix: namespace constraint violations were not refused

---
 pyslet/pyslet/xmlnames20091208.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 28da30b..6d4f7c5 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -429,6 +429,8 @@ class XMLNSParser(XMLParser):
 				return (NO_NAMESPACE,qname)
 		elif len(xname)==2:
 			nsprefix,local=xname
+			if not IsValidNCName(nsprefix) or not IsValidNCName(local):
+				self.NSConstraintError("Illegal QName: %s"%qname)
 			if nsprefix=='xml':
 				return (XML_NAMESPACE,local)
 			elif nsprefix=='xmlns':
@@ -442,6 +444,22 @@ class XMLNSParser(XMLParser):
 			# something wrong with this element
 			raise XMLNSError("Illegal QName: %s"%qname)
 
+	def NSConstraintError(self,msg):
+		"""Raises :py:class:`XMLNSError` unless the parser is ignoring
+		well-formedness errors or is in SGML mode."""
+		if not self.dontCheckWellFormedness and not self.sgmlOmittag:
+			raise XMLNSError(msg)
+
+	def CheckNSDeclaration(self,prefix,ns):
+		"""Checks the constraints on the declaration of *prefix* ('' for the
+		default namespace)"""
+		if prefix=='xmlns' or ns==XMLNS_NAMESPACE:
+			self.NSConstraintError("Reserved Prefixes and Namespace Names: xmlns must not be declared")
+		elif (prefix=='xml')!=(ns==XML_NAMESPACE):
+			self.NSConstraintError("Reserved Prefixes and Namespace Names: illegal declaration of xml")
+		elif prefix and not ns:
+			self.NSConstraintError("No Prefix Undeclaring: %s"%prefix)
+
 	def MatchXMLName(self,element,qname):
 		"""Tests if *qname* is a possible name for this element.
 		
@@ -471,8 +489,12 @@ class XMLNSParser(XMLParser):
 				# ns prefix declaration
 				ns[aname[6:]]=attrs[aname]
 				del attrs[aname]
+		for prefix in ns.keys():
+			self.CheckNSDeclaration(prefix,ns[prefix])
 		for aname in attrs.keys():
 			expandedName=self.ExpandQName(aname,ns,False)
+			if expandedName in attrs:
+				self.NSConstraintError("Attributes Unique: %s"%aname)
 			attrs[expandedName]=attrs[aname]
 			del attrs[aname]
 		# Finally, we hide the ns object in the list of attributes so we can retrieve it later
-- 
2.43.0


From 8eb43f28bd1d734168837f665d6485b38952e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 048/305] fix: elements in no namespace written inside a
 default namespace

---
 pyslet/pyslet/xmlnames20091208.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 6d4f7c5..57d1d5c 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -317,7 +317,7 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 			indent=''
 			tab=''
 		attributes=[]
-		if self.ns:
+		if self.ns and self.ns!=NO_NAMESPACE:
 			# look up the element prefix
 			prefix=self.GetPrefix(self.ns)
 			if prefix is None:
@@ -325,6 +325,12 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 				prefix=self.MakePrefix(self.ns,'')
 		else:
 			prefix=''
+			defaultNS=self.GetPrefixMap().get('',None)
+			if defaultNS:
+				# We need to remove the default namespace
+				if self.nsToPrefix.get(defaultNS,None)=='':
+					del self.nsToPrefix[defaultNS]
+				self.prefixToNS['']=''
 		if prefix:
 			prefix=prefix+':'
 		self.WriteXMLAttributes(attributes,escapeFunction,root=root)
-- 
2.43.0


From aa03a28fe56b9c40037b2c64f376221f589fb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 049/305] fix: ValueError writing an element whose default
 prefix is taken

---
 pyslet/pyslet/xmlnames20091208.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 57d1d5c..96ace3d 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -322,7 +322,10 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 			prefix=self.GetPrefix(self.ns)
 			if prefix is None:
 				# We need to declare our namespace
-				prefix=self.MakePrefix(self.ns,'')
+				if '' in self.prefixToNS:
+					prefix=self.MakePrefix(self.ns)
+				else:
+					prefix=self.MakePrefix(self.ns,'')
 		else:
 			prefix=''
 			defaultNS=self.GetPrefixMap().get('',None)
-- 
2.43.0


From ab52e276a9ea53ec0f233704043c1f0cea8a7ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 050/305] fix: namespace declarations written without the given
 escape function

---
 pyslet/pyslet/xmlnames20091208.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 96ace3d..fa273ea 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -304,7 +304,7 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 			if prefix:
 				prefix=prefix+':'
 			attributes.append(u'%s%s=%s'%(prefix,aname,escapeFunction(attrs[a],True)))
-		self.WriteNSAttributes(attributes,escapeFunction=EscapeCharData,root=root)
+		self.WriteNSAttributes(attributes,escapeFunction=escapeFunction,root=root)
 	
 	def GenerateXML(self,escapeFunction=EscapeCharData,indent='',tab='\t',root=False):
 		if tab:
-- 
2.43.0


From 31293e723edb3cd1e8842c28b09c53bcdb94f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 051/305] fix: attributes written unprefixed when their
 namespace is the default

---
 pyslet/pyslet/xmlnames20091208.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index fa273ea..ad3e2d3 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -121,6 +121,22 @@ class XMLNSElementContainerMixin:
 				break
 		return prefix
 				
+	def GetAttributePrefix(self,ns):
+		"""Returns the prefix to use for an attribute in the given namespace
+		or None if no suitable prefix is currently in force.
+		
+		The default namespace does not apply to attributes so this method
+		never returns an empty prefix (unless *ns* is
+		:py:data:`NO_NAMESPACE`)."""
+		prefix=self.GetPrefix(ns)
+		if prefix or ns==NO_NAMESPACE or ns is None:
+			return prefix
+		prefixMap=self.GetPrefixMap()
+		for prefix in sorted(prefixMap.keys()):
+			if prefix and prefixMap[prefix]==ns:
+				return prefix
+		return None
+
 	def MakePrefix(self,ns,prefix=None):
 		"""Creates a new mapping from ns to the given prefix."""
 # 		if ns is None:
@@ -298,9 +314,14 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 				prefix=''
 			else:
 				ns,aname=a
-				prefix=self.GetPrefix(ns)
+				prefix=self.GetAttributePrefix(ns)
 			if prefix is None:
-				prefix=self.MakePrefix(ns)
+				prefix=self.NewPrefix()
+				if self.GetPrefix(ns) is None:
+					self.MakePrefix(ns,prefix)
+				else:
+					# leave the default prefix in force for elements
+					self.prefixToNS[prefix]=ns
 			if prefix:
 				prefix=prefix+':'
 			attributes.append(u'%s%s=%s'%(prefix,aname,escapeFunction(attrs[a],True)))
-- 
2.43.0


From a85f220b77e0606e1b2fe7b0f40ea1d45ee7367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 052/305] fix: undeclaring the default namespace was ignored

---
 pyslet/pyslet/xmlnames20091208.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index ad3e2d3..7e70ec4 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -90,8 +90,11 @@ class XMLNSElementContainerMixin:
 		ns=None
 		ei=self
 		while ei is not None:
-			ns=ei.prefixToNS.get(prefix,None)
-			if ns:
+			if prefix in ei.prefixToNS:
+				# an empty string un-declares the default namespace
+				ns=ei.prefixToNS[prefix]
+				if not ns:
+					ns=None
 				break
 			if prefix=='':
 				ns=getattr(ei,'DefaultNS',None)
@@ -454,6 +457,9 @@ class XMLNSParser(XMLParser):
 				nsURI=nsDefs.get('',None)
 				if nsURI is None and context:
 					nsURI=context.GetNS('')
+				elif not nsURI:
+					# the default namespace has been undeclared
+					nsURI=None
 				return (nsURI,qname)
 			else:
 				return (NO_NAMESPACE,qname)
-- 
2.43.0


From 9fc4e3bdd5d2a58f79a4d5ddbe7adf9a60e89cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 053/305] fix: orphan copies of generic elements lost their
 name

---
 pyslet/pyslet/xml20081126/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 595900f..73ff542 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -1974,6 +1974,7 @@ class Element(Node):
 			e=parent.ChildElement(self.__class__,self.GetXMLName())
 		else:
 			e=self.__class__(None)
+			e.SetXMLName(self.GetXMLName())
 		attrs=self.GetAttributes()
 		for aname in attrs.keys():
 			e.SetAttribute(aname,attrs[aname])
-- 
2.43.0


From 1fd079933e6e3fbfedce0f208a6712f78f6995c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 054/305] fix: XSD expressions with trailing characters were
 accepted, and alternatives matched only a prefix

---
 pyslet/pyslet/xsdatatypes20041028.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 030eb0c..fa9920d 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -660,7 +660,9 @@ class RegularExpression:
 	def __init__(self,src):
 		p=RegularExpressionParser(src)
 		pyre=p.ParseRegExp()
-		self.p=compile(pyre)	#: the compiled python regular expression
+		if p.theChar is not None:
+			raise RegularExpressionError("Unexpected %s at [%i]"%(repr(p.theChar),p.pos))
+		self.p=compile(u"(?:%s)\\Z"%pyre)	#: the compiled python regular expression
 		self.src=src			#: the original source string
 	
 	def __str__(self):
-- 
2.43.0


From 18f62f5e92f7241903dbd28a2091435a824ac241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 055/305] fix: DecodeValueDict kept only the last value

---
 pyslet/pyslet/xsdatatypes20041028.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index fa9920d..9d6c344 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -533,8 +533,8 @@ class Enumeration:
 		result={}
 		for s in src.split():
 			sv=decoder(s)
-		if not sv in result:
-			result[sv]=s
+			if not sv in result:
+				result[sv]=s
 		return result
 		 
 	@classmethod
-- 
2.43.0


From 29b6c5684716ba032f66da4a8a57a79d6031ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 056/305] fix: empty strings raised IndexError from
 DecodeTitleValue and Duration

---
 pyslet/pyslet/xsdatatypes20041028.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 9d6c344..8562f60 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -367,7 +367,7 @@ class Duration(iso8601.Duration):
 	
 	def SetFromString(self,durationStr):
 		if type(durationStr) in StringTypes:
-			if durationStr[0]=='-':
+			if durationStr[:1]=='-':
 				self.sign=-1
 				durationStr=durationStr[1:]
 			else:
@@ -500,7 +500,7 @@ class Enumeration:
 		then ValueError is raised."""
 		try:
 			src=src.strip()
-			src=src[0].upper()+src[1:].lower()
+			src=src[:1].upper()+src[1:].lower()
 			return cls.decode[src]
 		except KeyError:
 			raise ValueError("Can't decode %s from %s"%(cls.__name__,src))
-- 
2.43.0


From 3a468bf59f61edbbd0628b3570bc7f20edda6ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 057/305] fix: NaN was encoded as NAN

---
 pyslet/pyslet/xsdatatypes20041028.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 8562f60..b1c4a5f 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -295,7 +295,7 @@ def EncodeDouble(value,digits=None,stripZeros=True):
 		else:
 			return "0."+("0"*digits)+"E0"
 	elif math.isnan(value):
-		return "NAN"
+		return "NaN"
 	elif math.isinf(value):
 		return "INF" if value>0 else "-INF"
 	if value<0:
-- 
2.43.0


From 721d408ae830502235bdffdb7ea02b3383266208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 058/305] fix: decoding a float with an exponent lost precision
 or overflowed

---
 pyslet/pyslet/xsdatatypes20041028.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index b1c4a5f..1db7325 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -210,9 +210,9 @@ def DecodeFloat(src):
 		if len(s)!=2:
 			raise ValueError("Invalid lexical representation of double: %s"%src)
 		m,e=s
-		m=DecodeDecimal(m)
-		e=DecodeInteger(e)
-		result=m*math.pow(10,e)
+		DecodeDecimal(m)
+		DecodeInteger(e)
+		result=float(src)
 	elif s in ("inf","-inf","nan"):
 		return float(s)
 	else:
@@ -258,9 +258,9 @@ def DecodeDouble(src):
 		if len(s)!=2:
 			raise ValueError("Invalid lexical representation of double: %s"%src)
 		m,e=s
-		m=DecodeDecimal(m)
-		e=DecodeInteger(e)
-		return m*math.pow(10,e)
+		DecodeDecimal(m)
+		DecodeInteger(e)
+		return float(src)
 	elif s in ("inf","-inf","nan"):
 		return float(s)
 	else:
-- 
2.43.0


From 8e519648dde4ff410ce6f7f609dfe0005ac2a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 059/305] fix: encoding decimals and doubles added a spurious
 digit and failed for very large or small values

---
 pyslet/pyslet/xsdatatypes20041028.py | 37 +++++++++++-----------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 1db7325..acbc2e4 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -3,6 +3,7 @@
 
 import string
 import math
+import decimal
 from sys import maxunicode, float_info
 from re import compile
 from types import *
@@ -107,6 +108,14 @@ def _RoundDigits(digits):
 		return False
 
 
+def _ScaleDigits(value,places):
+	"""Returns the decimal digits of the non-negative *value* multiplied by 10
+	to the power *places*, rounded (half up) to an integer."""
+	d=decimal.Decimal(repr(float(value)))
+	d=decimal.Decimal((0,d.as_tuple()[1],d.as_tuple()[2]+places))
+	return str(int(d.to_integral_value(rounding=decimal.ROUND_HALF_UP)))
+
+
 def _StripZeros(digits):
 	"""Shortens a list of digits *digits* by stripping trailing zeros. *digits*
 	may contain a point in which case one zero is always left after the
@@ -130,6 +139,8 @@ def EncodeDecimal(value,digits=None,stripZeros=True):
 	will strip trailing zeros in the fractional part.  To override this
 	behaviour and return exactly *digits* decimal places set *stripZeros* to
 	False."""
+	if math.isnan(value) or math.isinf(value):
+		raise ValueError("Invalid value for decimal: %s"%EncodeDouble(value))
 	if value<0:
 		sign='-'
 		value=-value
@@ -166,12 +177,7 @@ def EncodeDecimal(value,digits=None,stripZeros=True):
 			return "0.0"
 		else:
 			return "0."+("0"*digits)
-	elif math.isnan(value) or math.isinf(value):
-		raise ValueError("Invalid value for decimal: %s"%EncodeDouble(value))
-	f,i=math.modf(value*math.pow(10,digits))
-	if f>=0.5:
-		i=i+1
-	dString=list(str(int(i)))
+	dString=list(_ScaleDigits(value,digits))
 	# assume all digits in dString are significant
 	_RoundDigits(dString)
 	if len(dString)<=digits:
@@ -303,28 +309,15 @@ def EncodeDouble(value,digits=None,stripZeros=True):
 		value=-value
 	else:
 		sign=''
-	try:
-		x=math.log10(value)
-	except ValueError:
-		# not sure if this is possible, a number so small log10 fails
-		return "0.0E0"
-	m,e=math.modf(x)
-	e=int(e)
-	r,m=math.modf(math.pow(10,m+digits))
-	if r>=0.5:
-		m=m+1
-	dString=list(str(int(m)))
-	# m should originally have been in [1,10) but we need to check for over/underflow
+	e=decimal.Decimal(repr(float(value))).adjusted()
+	dString=list(_ScaleDigits(value,digits-e))
 	if len(dString)>digits+1:
 		# overflow, strip the trailing zero
 		e=e+1
 		del dString[-1]
-	elif len(dString)<=digits:
-		# underflow - probably impossible, e.g, pow(10,log10(1.000)+N)->999....9(.9)
-		e=e-1
-		dString.append(u"9")
 	# inevitably, after this len(dString)==digits+1
 	if _RoundDigits(dString):
+		e=e+1
 		del dString[-1]
 	assert dString[0]!=u'0'
 	if len(dString)>1:
-- 
2.43.0


From a4fd60efbc538de2881794a442d106094c020bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 060/305] fix: character classes ordered astral and private use
 characters wrongly under UTF-16 comparison

---
 pyslet/pyslet/unicode5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index 17761ef..4aa24d9 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -254,7 +254,7 @@ class CharClass:
 	
 	def AddRange(self,a,z):
 		"""Adds a range of characters from a to z to the class"""
-		if z<a:
+		if ord(z)<ord(a):
 			x=z;z=a;a=x
 		a=unicode(a);z=unicode(z)
 		if self.ranges:
@@ -289,7 +289,7 @@ class CharClass:
 		
 	def SubtractRange(self,a,z):
 		"""Subtracts a range of characters from the character class"""
-		if z<a:
+		if ord(z)<ord(a):
 			x=z;z=a;a=x
 		a=unicode(a);z=unicode(z)
 		if self.ranges:
@@ -453,15 +453,15 @@ class CharClass:
 		#print "Searching in %i,%i"%(rmin,rmax)
 		if rmin==rmax:
 			# is c in this range
-			if c>self.ranges[rmin][1]:
+			if ord(c)>ord(self.ranges[rmin][1]):
 				return (False,rmin+1)
-			elif c<self.ranges[rmin][0]:
+			elif ord(c)<ord(self.ranges[rmin][0]):
 				return (False,rmin)
 			else:
 				return (True,rmin)
 		else:
 			rtry=(rmin+rmax)//2
-			if c<=self.ranges[rtry][1]:
+			if ord(c)<=ord(self.ranges[rtry][1]):
 				return self.BisectionSearch(c,rmin,rtry)
 			else:
 				return self.BisectionSearch(c,rtry+1,rmax)
-- 
2.43.0


From 41861c3737d7f2f75d3d1a2f79d0f76541e19924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 061/305] fix: a character bridging two ranges of a class left
 them unmerged

---
 pyslet/pyslet/unicode5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index 4aa24d9..d2e5d23 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -418,7 +418,7 @@ class CharClass:
 			if ord(ap)>=ord(a)-1:
 				# Left merge
 				indexA=indexA-1
-		elif indexZ<len(self.ranges)-1:
+		if indexZ<len(self.ranges)-1:
 			zn=self.ranges[indexZ+1][0]
 			if ord(zn)<=ord(z)+1:
 				# Right merge
-- 
2.43.0


From d9007fb026c568ecb755e24be2e018f8d8f4de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 062/305] fix: copying a class into an empty class shared its
 ranges

---
 pyslet/pyslet/unicode5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index d2e5d23..a523aa6 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -396,7 +396,7 @@ class CharClass:
 		else:
 			# take a short cut here, if we have no ranges yet just copy them
 			for r in c.ranges:
-				self.ranges.append(r)
+				self.ranges.append(list(r))
 							
 	def SubtractClass(self,c):
 		"""Subtracts all the characters in c from the character class"""
-- 
2.43.0


From baa3aafd597a1e1ceba826117523e4dab0e676d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 063/305] fix: the class of all characters, or all but
 backslash, formatted as the wrong expression

---
 pyslet/pyslet/unicode5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index a523aa6..bdd5dea 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -189,13 +189,16 @@ class CharClass:
 			# to avoid maxunicode we negate this range
 			neg=CharClass(self)
 			neg.Negate()
+			if not neg.ranges:
+				# nothing to negate, this class contains all characters
+				return u"[\\x00-%s]"%unichr(maxunicode)
 			result=unicode(neg)
 			if result[0]=="[":
 				return "[^%s]"%result[1:-1]
 			elif result[0]=="\\":
 				# we may not need the escape
-				if result=="\\]":
-					return "[^\\]]"
+				if result=="\\]" or result=="\\\\":
+					return "[^%s]"%result
 				elif result in self._ReControls.values():
 					return "[^%s]"%result
 				else:
-- 
2.43.0


From 7cc51a022f7c38d1dfa0a5642953aedab2ab2676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 064/305] fix: collapsing white space put a space after the
 first character of an indented value

---
 pyslet/pyslet/xsdatatypes20041028.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index acbc2e4..b08d26e 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -636,7 +636,7 @@ def WhiteSpaceCollapse(value):
 		else:
 			if output and gotSpace:
 				output.append(unichr(0x20))
-				gotSpace=False
+			gotSpace=False
 			output.append(c)
 	return string.join(output,'')
 
-- 
2.43.0


From 51e6f4d5df99afdc8e466058cfa85679816f11e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 065/305] fix: classes bounded by surrogates could not be
 combined under Jython

---
 pyslet/pyslet/unicode5.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index bdd5dea..8397cda 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -58,6 +58,11 @@ def DetectEncoding(magic):
 		return None
 
 
+def _Char(c):
+	"""Returns *c* as a unicode character (which may be a surrogate)"""
+	return c if type(c) is types.UnicodeType else unicode(c)
+
+
 class CharClass:
 	"""Represents a class of unicode characters.
 	
@@ -259,7 +264,7 @@ class CharClass:
 		"""Adds a range of characters from a to z to the class"""
 		if ord(z)<ord(a):
 			x=z;z=a;a=x
-		a=unicode(a);z=unicode(z)
+		a=_Char(a);z=_Char(z)
 		if self.ranges:
 			matchA,indexA=self.BisectionSearch(a,0,len(self.ranges)-1)
 			matchZ,indexZ=self.BisectionSearch(z,0,len(self.ranges)-1)
@@ -294,7 +299,7 @@ class CharClass:
 		"""Subtracts a range of characters from the character class"""
 		if ord(z)<ord(a):
 			x=z;z=a;a=x
-		a=unicode(a);z=unicode(z)
+		a=_Char(a);z=_Char(z)
 		if self.ranges:
 			matchA,indexA=self.BisectionSearch(a,0,len(self.ranges)-1)
 			matchZ,indexZ=self.BisectionSearch(z,0,len(self.ranges)-1)
@@ -363,7 +368,7 @@ class CharClass:
 	
 	def AddChar(self,c):
 		"""Adds a single character to the character class"""
-		c=unicode(c)
+		c=_Char(c)
 		if self.ranges:
 			match,index=self.BisectionSearch(c,0,len(self.ranges)-1)
 			if not match:
@@ -374,7 +379,7 @@ class CharClass:
 	
 	def SubtractChar(self,c):
 		"""Subtracts a single character from the character class"""
-		c=unicode(c)
+		c=_Char(c)
 		if self.ranges:
 			match,index=self.BisectionSearch(c,0,len(self.ranges)-1)
 			if match:
-- 
2.43.0


From c460a514443d13845b64fbfcf4213f4358af9c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 066/305] fix: FormatRe of a class starting with a caret was
 negated

---
 pyslet/pyslet/unicode5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index 8397cda..8574db8 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -250,7 +250,7 @@ class CharClass:
 		return string.join(pyCharSet,'')
 	
 	def FormatReChar(self,c):
-		if c in "-]\\":
+		if c in "-]\\^":
 			# prepen a backslash
 			return "\\"+c
 		else:
-- 
2.43.0


From 2d4c0999fe4c0a684ff8c392b85c9260b5484a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 067/305] fix: UTF-16 with a byte order mark was not detected
 before an ASCII character

---
 pyslet/pyslet/unicode5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index 8574db8..5a91e5e 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -24,6 +24,8 @@ MagicTable={
 	'\xfe\xff\x00\x00':'utf_32',			# UCS-4, unusual octet order (3412)
 	'\xfe\xff\x2a\x2a':'utf_16_be',			# UTF-16, big-endian
 	'\xff\xfe\x2a\x2a':'utf_16_le',			# UTF-16, little-endian
+	'\xfe\xff\x00\x2a':'utf_16_be',			# UTF-16, big-endian, starting with U+0001 to U+00FD
+	'\xff\xfe\x2a\x00':'utf_16_le',			# UTF-16, little-endian, starting with U+0001 to U+00FD
 	'\x00\x00\x00\x2a':'utf_32_be',			# UCS-4 or other encoding with a big-endian 32-bit code unit
 	'\x2a\x00\x00\x00':'utf_32_le',			# UCS-4 or other encoding with a little-endian 32-bit code unit
 	'\x00\x00\x2a\x00':'utf_32_le',			# UCS-4 or other encoding with an unusual 32-bit code unit
-- 
2.43.0


From c4db9732371c0c0d91344e4ffacddced30552a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 068/305] fix: names with characters beyond the basic plane
 were refused

---
 pyslet/pyslet/xml20081126/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 73ff542..c4a0b26 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -686,6 +686,8 @@ NameStartCharClass=CharClass(u':', (u'A',u'Z'), u'_', (u'a',u'z'),
 	(u'\xf8',u'\u02ff'), (u'\u0370',u'\u037d'), (u'\u037f',u'\u1fff'),
 	(u'\u200c',u'\u200d'), (u'\u2070',u'\u218f'), (u'\u2c00',u'\u2fef'),
 	(u'\u3001',u'\ud7ff'), (u'\uf900',u'\ufdcf'), (u'\ufdf0',u'\ufffd'))
+if maxunicode>=0xEFFFF:
+	NameStartCharClass.AddRange(unichr(0x10000),unichr(0xEFFFF))
 
 def IsNameStartChar(c):
 	"""Tests if the character *c* matches production [4] NameStartChar."""
-- 
2.43.0


From cea0ab38010eb501a2c205347034ef36cfa84aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 069/305] fix: RequireChallenge dropped the authentication
 scheme

---
 pyslet/pyslet/rfc2617.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index 6c606f3..fa35e05 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -301,4 +301,4 @@ class AuthorizationParser(ParameterParser):
 		if authScheme.lower()=="basic":
 			return BasicChallenge(*params)
 		else:
-			return Challenge(*params)
+			return Challenge(authScheme,*params)
-- 
2.43.0


From dbfcfb314bcd246797e6d324a33423945da37039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 070/305] fix: qvalue with a bare trailing point is valid

---
 pyslet/pyslet/rfc2616_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 7f8078d..13585fd 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -742,7 +742,7 @@ class ParameterParser(WordParser):
 				if IsDIGITS(qSplit[0]):
 					q=float(qSplit[0])
 			elif len(qSplit)==2:
-				if IsDIGITS(qSplit[0]) and IsDIGITS(qSplit[1]):
+				if IsDIGITS(qSplit[0]) and (not qSplit[1] or IsDIGITS(qSplit[1])):
 					q=float("%.3f"%float(self.cWord))
 			if q is None:
 				return None
-- 
2.43.0


From cd3cac6c404434ec1024fcc2d6d2b69b04de9555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 071/305] fix: an out of range HTTP date raises SyntaxError

---
 pyslet/pyslet/rfc2616_params.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 13585fd..65d40cf 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -683,7 +683,10 @@ class ParameterParser(WordParser):
 				century=20
 			else:
 				century=19
-		tp=FullDate(date=iso.Date(century=century,year=year,month=month+1,day=day),time=iso.Time(hour=hour,minute=minute,second=second,zDirection=0))
+		try:
+			tp=FullDate(date=iso.Date(century=century,year=year,month=month+1,day=day),time=iso.Time(hour=hour,minute=minute,second=second,zDirection=0))
+		except iso.DateTimeError,e:
+			raise SyntaxError("Invalid date: %s"%str(e))
 		d1,d2,d3,d4,dow=tp.date.GetWeekDay()
 		if dow!=dayOfWeek+1:
 			raise SyntaxError("Day-of-week mismatch, expected %s but found %s"%(self.wkday[dow-1],self.wkday[dayOfWeek]))
-- 
2.43.0


From c2d8462f191ab3af66f33f07b374e1b1d4db130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 072/305] fix: NameErrors in entity-tag parsing and
 representation

---
 pyslet/pyslet/rfc2616_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 65d40cf..89cd033 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -552,7 +552,7 @@ class EntityTag:
 		return unicode(self.__str__())
 	
 	def __repr__(self):
-		return "EntityTag(%s,%s)"%(repr(self.tag),"True" if self.week else "False")
+		return "EntityTag(%s,%s)"%(repr(self.tag),"True" if self.weak else "False")
 			
 	def __cmp__(self,other):
 		"""Entity-tags are compared case sensitive."""
@@ -590,7 +590,7 @@ class ParameterParser(WordParser):
 				raise SyntaxError("Expected version, found %s"%repr(token))
 			return HTTPVersion(major=int(version[0]),minor=int(version[1]))
 		except SyntaxError:
-			self.SetPos(savePost)
+			self.SetPos(savePos)
 			return None
 
 	wkday=["Mon","Tue","Wed","Thu","Fri","Sat","Sun"]
-- 
2.43.0


From ae95efd596346d6f3d6051c7284bd5da96dd8f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 073/305] fix: transfer-coding and media type hashing and
 comparison

---
 pyslet/pyslet/rfc2616_params.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 89cd033..5c90bc7 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -181,18 +181,15 @@ class TransferEncoding(object):
 	def __str__(self):
 		return self.token+FormatParameters(self.parameters)
 
-	def __eq__(self,other):
-		return hash(self)==hash(other)
-	
 	def __cmp__(self,other):
 		if type(other) in StringTypes:
 			other=TransferEncoding.FromString(other)
-		if not isinstance(TransferEncoding):
+		if not isinstance(other,TransferEncoding):
 			raise TypeError
 		return cmp((self.token,self._hp),(other.token,other._hp))
 		
 	def __hash__(self):
-		return hash((self.token,self._hp))
+		return hash((self.token,tuple(self._hp)))
 
 		
 class MediaType(object):
@@ -249,7 +246,7 @@ class MediaType(object):
 		return cmp(self._hp,other._hp)
 
 	def __hash__(self):
-		return hash((self.type.lower(),self.subtype.lower(),self._hp))
+		return hash((self.type.lower(),self.subtype.lower(),tuple(self._hp)))
 
 
 class ProductToken(object):
-- 
2.43.0


From e0ffdfb459b9ebe676654455c05be2ae4e1f6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 074/305] fix: HTTP dates are always formatted in GMT with the
 right day name

---
 pyslet/pyslet/rfc2616_params.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 5c90bc7..a7c4fb8 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -134,8 +134,10 @@ class FullDate(iso.TimePoint):
 		
 		Note that this overrides the default behaviour which would be to use one
 		of the iso8601 output formats."""
+		if self.GetZone()[0]:
+			return str(self.ShiftZone(0))
 		century,year,month,day,hour,minute,second=self.GetCalendarTimePoint()
-		century,decade,dyear,week,dayOfWeek=self.date.GetWeekDay()
+		dayOfWeek=self.date.GetWeekDay()[4]
 		return "%s, %02i %s %04i %02i:%02i:%02i GMT"%(
 			ParameterParser.wkday[dayOfWeek-1],
 			day,
@@ -143,7 +145,7 @@ class FullDate(iso.TimePoint):
 			century*100+year,
 			hour,minute,second)
 
-	def __unicode(self):
+	def __unicode__(self):
 		"""See __str__"""
 		return unicode(str(self))
 
-- 
2.43.0


From 14482eefd23382a596eb91e250701998db5b8fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 075/305] fix: http URLs with no path are equivalent to those
 with an empty path

---
 pyslet/pyslet/rfc2616_params.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index a7c4fb8..d990aef 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -90,6 +90,9 @@ class HTTPURL(uri.ServerBasedURL):
 				newURI.append(uri.CanonicalizeData(self.absPath))
 		elif self.relPath is not None:
 			newURI.append(uri.CanonicalizeData(self.relPath))
+		elif self.authority is not None:
+			# an empty abs_path is equivalent to "/"
+			newURI.append("/")
 		if self.query is not None:
 			newURI.append('?')
 			newURI.append(uri.CanonicalizeData(self.query))
-- 
2.43.0


From 0e2e3c0a40ef9af445191e85ab5fc60c07ceb432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 076/305] fix: null list elements and trailing data in header
 lists

---
 pyslet/pyslet/rfc2616_headers.py | 48 +++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 6657966..1fe3b43 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -615,7 +615,7 @@ class CacheControl(object):
 	def FromString(cls,source):
 		"""Create a Cache-Control value from a *source* string."""
 		p=HeaderParser(source)
-		cc=p.ParseCacheControl()
+		cc=p.RequireCacheControl()
 		p.RequireEnd("Cache-Control header")
 		return cc
 	
@@ -782,10 +782,10 @@ class HeaderParser(ParameterParser):
 		self.ParseSP()
 		while self.cWord:
 			a=self.ParseProduction(self.RequireAcceptItem)
-			if a is None:
-				break
-			items.append(a)
+			if a is not None:
+				items.append(a)
 			self.ParseSP()
+			# null elements are allowed in lists
 			if not self.ParseSeparator(','):
 				break
 		if items:
@@ -831,14 +831,48 @@ class HeaderParser(ParameterParser):
 		self.ParseSP()
 		while self.cWord:
 			a=self.ParseProduction(self.RequireAcceptToken,cls.ItemClass)
-			if a is None:
-				break
-			items.append(a)
+			if a is not None:
+				items.append(a)
 			self.ParseSP()
+			# null elements are allowed in lists
 			if not self.ParseSeparator(','):
 				break
 		return cls(*items)
 
+	def RequireCacheControl(self):
+		"""Parses a list of cache directives, returning a
+		:py:class:`CacheControl` instance.  Raises SyntaxError if no
+		directives were found.
+
+		The values of quoted no-cache and private directives are lists
+		of field names and are represented by tuples."""
+		directives=[]
+		self.ParseSP()
+		while self.cWord:
+			if self.ParseSeparator(','):
+				self.ParseSP()
+				continue
+			name=self.RequireToken("cache directive").lower()
+			self.ParseSP()
+			if self.ParseSeparator('='):
+				self.ParseSP()
+				if self.IsQuotedString():
+					value=self.ParseQuotedString()
+					if name in ("no-cache","private"):
+						value=tuple(HeaderParser(value).ParseTokenList())
+				else:
+					value=self.RequireToken("cache directive value")
+				self.ParseSP()
+				directives.append((name,value))
+			else:
+				directives.append(name)
+			if self.cWord and not self.IsSeparator(','):
+				self.Error("','")
+		if directives:
+			return CacheControl(*directives)
+		else:
+			raise SyntaxError("Expected cache directive")
+
 	def RequireContentRangeSpec(self):
 		"""Parses a content-range-spec, returning an
 		:py:class:`ContentRange` instance."""
-- 
2.43.0


From 81d5cf5408df90cfff2dfb23245b90eb8335b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 077/305] fix: Allow and AcceptRanges hash consistently with
 equality

---
 pyslet/pyslet/rfc2616_headers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 1fe3b43..cbceaae 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -524,6 +524,9 @@ class AcceptRanges(object):
 			raise TypeError
 		return cmp(self._sorted,other._sorted)
 
+	def __hash__(self):
+		return hash(tuple(self._sorted))
+
 
 class Allow(object):
 	"""Represents the value of an Allow entity header.
@@ -572,6 +575,9 @@ class Allow(object):
 			raise TypeError
 		return cmp(self._sorted,other._sorted)
 
+	def __hash__(self):
+		return hash(tuple(self._sorted))
+
 
 class CacheControl(object):
 	"""Represents the value of a Cache-Control general header.
-- 
2.43.0


From b3f0f74cd81946f2292de57d7eb7b3d8d0df4f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 078/305] fix: accept list ordering and selection

---
 pyslet/pyslet/rfc2616_headers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index cbceaae..86ec916 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -417,7 +417,7 @@ class AcceptEncodingList(AcceptTokenList):
 				# here suggests that we should use the lowest possible q
 				# value in this case.  We do this by re-using 0 to mean
 				# minimally acceptable.
-				if bestQ==0:
+				if bestQ==0 and bestMatch is None:
 					bestMatch=token
 		return bestMatch
 
@@ -441,6 +441,9 @@ class AcceptLanguageItem(AcceptToken):
 		if result==0:
 			# and then secondary sort on alphabetical
 			result=cmp(self._range,other._range)
+		if result==0:
+			# equal ranges sort by descending q-value
+			result=cmp(other.q,self.q)
 		return result
 
 
@@ -453,7 +456,11 @@ class AcceptLanguageList(AcceptTokenList):
 
 	def SelectToken(self,tokenList):
 		"""Remapped to :py:meth:`SelectLanguage`"""
-		return str(self.SelectLanguage(map(LanguageTag.FromString,tokenList)))
+		lang=self.SelectLanguage(map(LanguageTag.FromString,tokenList))
+		if lang is None:
+			return None
+		else:
+			return str(lang)
 	
 	def SelectLanguage(self,langList):
 		bestMatch=None
-- 
2.43.0


From e024b1c7ddd9e12a8f124b1e16e7c99e9d0fa446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 079/305] fix: accept items and tokens hash and representation

---
 pyslet/pyslet/rfc2616_headers.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 86ec916..46d811c 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -50,9 +50,13 @@ class MediaRange(MediaType):
 		return mr
 					
 	def __repr__(self):
-		return "MediaType(%s,%s,%s)"%(repr(self.type),repr(self.subtype),repr(self.parameters))
+		return "MediaRange(%s,%s,%s)"%(repr(self.type),repr(self.subtype),repr(self.parameters))
 			
 	def __cmp__(self,other):
+		if type(other) in StringTypes:
+			other=MediaRange.FromString(other)
+		if not isinstance(other,MediaRange):
+			raise TypeError
 		result=self.CompareTypes(self.type,other.type)
 		if result:
 			return result
@@ -63,7 +67,7 @@ class MediaRange(MediaType):
 		result=-cmp(len(self.parameters),len(other.parameters))
 		if result:
 			return result
-		return cmp(self.parameters,other.parameters)
+		return cmp(self._hp,other._hp)
 			
 	def CompareTypes(self,aType,bType):
 		if aType=='*':
@@ -158,6 +162,9 @@ class AcceptItem(MediaRange):
 			result.append(FormatParameters(self.params))
 		return string.join(result,'')
 
+	def __repr__(self):
+		return "AcceptItem(%s,%s,%s)"%(repr(self.range),repr(self.q),repr(self.params))
+			
 	def __cmp__(self,other):
 		if type(other) in StringTypes:
 			other=AcceptItem.FromString(other)
@@ -172,7 +179,7 @@ class AcceptItem(MediaRange):
 		return result
 
 	def __hash__(self):
-		return hash(self.range,self.q)
+		return hash((self.range,self.q))
 					
 
 class AcceptList(object):
@@ -293,7 +300,7 @@ class AcceptToken(object):
 		return result
 
 	def __hash__(self):
-		return hash(self._token,self.q)
+		return hash((self._token,self.q))
 
 
 class AcceptTokenList(object):
-- 
2.43.0


From 8de3343766178f778cea2f742ee9aff33315d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 080/305] fix: the empty string and non-ASCII characters need
 quoting as tokens

---
 pyslet/pyslet/rfc2616_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index fe38fc0..08b9ee8 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -693,11 +693,14 @@ def QuoteString(s,force=True):
 	
 	If *force* is False then valid tokens are *not* quoted."""
 	qstring=['"']
+	if not s:
+		# an empty string is not a valid token
+		force=True
 	for c in s:
 		if c in '\\"' or (IsCTL(c) and c not in SP+HT):
 			qstring.append('\\'+c)
 			force=True
-		elif IsCTL(c) or IsSEPARATOR(c):
+		elif IsCTL(c) or IsSEPARATOR(c) or not IsCHAR(c):
 			force=True
 			qstring.append(c)
 		else:
-- 
2.43.0


From 9db7d4aa72af9a626c2f188c2e6b96738cd03512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 081/305] fix: HTTP word parsing at end of input, comments and
 quoted strings

---
 pyslet/pyslet/rfc2616_core.py | 38 ++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index 08b9ee8..0085e4f 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -70,7 +70,7 @@ def IsHEX(c):
 	return IsDIGIT(c) or (ord('A')<=ord(c) and ord(c)<=ord('F')) or (ord('a')<=ord(c) and ord(c)<=ord('f'))
 
 
-def IsHEXDIGITS(c):
+def IsHEXDIGITS(src):
 	"""Given a string, returns True if all characters match the production for HEX.
 	
 	Empty strings return False"""
@@ -143,7 +143,7 @@ class HTTPParser(BasicParser):
 				return SP
 			else:
 				return lws
-		elif IsOCTET(self.theChar) and not IsCTL(self.theChar):
+		elif self.theChar is not None and IsOCTET(self.theChar) and not IsCTL(self.theChar):
 			result=self.theChar
 			self.NextChar()
 			return result
@@ -179,7 +179,7 @@ class HTTPParser(BasicParser):
 		found."""
 		token=[]
 		while self.theChar is not None:
-			if IsCTL(self.theChar) or IsSEPARATOR(self.theChar):
+			if IsCTL(self.theChar) or IsSEPARATOR(self.theChar) or not IsCHAR(self.theChar):
 				break
 			else:
 				token.append(self.theChar)
@@ -270,8 +270,10 @@ class HTTPParser(BasicParser):
 		if not self.Parse(DQUOTE):
 			return None
 		qs=[DQUOTE]
-		while self.theChar is not None:
-			if self.Parse(DQUOTE):
+		while True:
+			if self.theChar is None:
+				raise ValueError("Unclosed quoted string: %s"%string.join(qs,''))
+			elif self.Parse(DQUOTE):
 				qs.append(DQUOTE)
 				break
 			elif self.Match("\\"):
@@ -324,7 +326,7 @@ class HTTPParser(BasicParser):
 		found."""
 		savePos=self.pos
 		if self.Parse("\\"):
-			if IsCHAR(self.theChar):
+			if self.theChar is not None and IsCHAR(self.theChar):
 				qdPair="\\"+self.theChar
 				self.NextChar()
 				return qdPair				
@@ -377,16 +379,24 @@ class WordParser(object):
 					sp=True
 			if sp:
 				self.words.append(SP)
+			if p.theChar is None:
+				break
 			if IsSEPARATOR(p.theChar):
-				if p.theChar=="(":
-					self.words.append(p.ParseComment(True))
-				elif p.theChar==DQUOTE:
-					self.words.append(p.ParseQuotedString(True))
-				else:
-					self.words.append(p.theChar)
-					p.NextChar()
+				try:
+					if p.theChar=="(":
+						self.words.append(p.ParseComment(True))
+					elif p.theChar==DQUOTE:
+						self.words.append(p.ParseQuotedString(True))
+					else:
+						self.words.append(p.theChar)
+						p.NextChar()
+				except ValueError,e:
+					raise SyntaxError(str(e))
 			else:
-				self.words.append(p.ParseToken())
+				token=p.ParseToken()
+				if token is None:
+					raise SyntaxError("Unexpected character: %s"%repr(p.theChar))
+				self.words.append(token)
 		self.pos=0
 		if self.words:
 			self.cWord=self.words[0]
-- 
2.43.0


From 43bdc9da319279652b0463627faae469a053638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 082/305] fix: Allow, Date and WWW-Authenticate header
 accessors

---
 pyslet/pyslet/rfc2616.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index bc2e377..b17a482 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1029,7 +1029,7 @@ class HTTPMessage(object):
 		if allowed is None:
 			self.SetHeader("Allow",None)
 		else:
-			if type(acceptValue) in StringTypes:
+			if type(allowed) in StringTypes:
 				allowed=Allow.FromString(allowed)
 			if not isinstance(allowed,Allow):
 				raise TypeError
@@ -1250,7 +1250,7 @@ class HTTPMessage(object):
 		if date is None:
 			self.SetHeader("Date",None)
 		else:
-			self.SetHeader("Date",FormatDate(date))
+			self.SetHeader("Date",str(date))
 				
 	def GetExpectContinue(self):
 		fieldValue=self.GetHeader("Expect")
@@ -1810,7 +1810,7 @@ class HTTPResponse(HTTPMessage):
 		if fieldValue is not None:
 			return Challenge.ListFromString(fieldValue)
 		else:
-			return None
+			return []
 
 	def SetWWWAuthenticate(self,challenges):
 		"""Sets the "WWW-Authenticate" header, replacing any exsiting
-- 
2.43.0


From 879a83bef6ec963f3bee5fd5ceac8769594513d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 083/305] fix: a non-idempotent request was started twice when
 waiting for a response

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index b17a482..8abfc64 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -156,7 +156,7 @@ class Connection(object):
 				if self.response is None or self.IDEMPOTENT.get(request.method,False):
 					# If we are waiting for a response we only accept idempotent methods
 					self.requestQueue=self.requestQueue[1:]
-				self._StartRequest(request)
+					self._StartRequest(request)
 			if self.request or self.response:
 				if self.socket is None:
 					self.NewSocket()
-- 
2.43.0


From e9e6354ce38b51de71be38babb98e0c6fae2a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 084/305] fix: missing argument in 100-continue timeout warning

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 8abfc64..4907a54 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -183,7 +183,7 @@ class Connection(object):
 					# empty buffer and we're waiting for a 100-continue (that may never come)
 					if self.continueWaitStart:
 						if time.time()-self.continueWaitStart>self.continueWaitMax:
-							logging.warn("%s timeout while waiting for 100-Continue response; sending anyway")
+							logging.warn("%s timeout while waiting for 100-Continue response; sending anyway",self.host)
 							self.requestMode=self.REQ_BODY_SENDING
 					else:
 						self.continueWaitStart=time.time()
-- 
2.43.0


From 9f8ea3b8bdd25637a823614b0abfcc226fcb52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 085/305] fix: pipelined responses received together with an
 earlier response were never processed

---
 pyslet/pyslet/rfc2616.py | 54 +++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 4907a54..f687b14 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -149,6 +149,7 @@ class Connection(object):
 		situations in which the method will block.  DNS name resolution
 		and creation/closure of sockets may block."""
 		rBusy=None;wBusy=None
+		leftOver=False
 		while True:
 			self.lastActive=time.time()
 			if self.requestQueue and self.requestMode==self.REQ_READY:
@@ -215,8 +216,10 @@ class Connection(object):
 					if e:
 						# there is an error on our socket...
 						self.Close("socket error indicated by select")
-					elif r:
-						if self._RecvResponseData():
+					elif r or leftOver:
+						# data left over from a previous response is
+						# processed before reading any more
+						if self._RecvResponseData(not leftOver):
 							# The response is done
 							closeConnection=False
 							if self.response:
@@ -231,6 +234,9 @@ class Connection(object):
 									closeConnection=True
 							if closeConnection:
 								self.Close()
+							leftOver=self.recvBufferSize>0
+						else:
+							leftOver=False
 						# Any data received on the connection could change the request
 						# state, so we loop round again
 						continue
@@ -389,30 +395,32 @@ class Connection(object):
 			# shouldn't get empty strings in the buffer but if we do, delete them
 			del self.sendBuffer[0]
 		
-	def _RecvResponseData(self):
+	def _RecvResponseData(self,recv=True):
 		#	We ask the response what it is expecting and try and
 		#	satisfy that, we return True when the response has been
-		#	received completely, False otherwise"""
+		#	received completely, False otherwise.  If recv is False then
+		#	we only use the data we've already received.
 		err=None
-		try:
-			data=self.socket.recv(SOCKET_CHUNK)
-		except socket.error, e:
-			# We can't truly tell if the server hung-up except by getting an error
-			# here so this error could be fairly benign.
-			err=e
-			data=None
-		logging.debug("Reading from %s: \n%s",self.host,repr(data))
-		if data:
-			nBytes=len(data)
-			self.recvBuffer.append(data)
-			self.recvBufferSize+=nBytes
-		else:
-			# TODO: this is typically a signal that the other end hung
-			# up, we should implement the HTTP retry strategy for the
-			# related request
-			logging.debug("%s: closing connection after recv returned no data on ready to read socket",self.host)
-			self.Close()
-			return True
+		if recv:
+			try:
+				data=self.socket.recv(SOCKET_CHUNK)
+			except socket.error, e:
+				# We can't truly tell if the server hung-up except by getting an error
+				# here so this error could be fairly benign.
+				err=e
+				data=None
+			logging.debug("Reading from %s: \n%s",self.host,repr(data))
+			if data:
+				nBytes=len(data)
+				self.recvBuffer.append(data)
+				self.recvBufferSize+=nBytes
+			else:
+				# TODO: this is typically a signal that the other end hung
+				# up, we should implement the HTTP retry strategy for the
+				# related request
+				logging.debug("%s: closing connection after recv returned no data on ready to read socket",self.host)
+				self.Close(err)
+				return True
 		# Now loop until we can't satisfy the response anymore (or the response is done)
 		while self.response is not None:
 			recvNeeds=self.response.RecvNeeds()
-- 
2.43.0


From 2ed45865abefd1815cd0daff7ee0d15a524358fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 086/305] fix: queued requests were abandoned when the server
 stopped reading

---
 pyslet/pyslet/rfc2616.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index f687b14..c606cb7 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -248,6 +248,9 @@ class Connection(object):
 				if self.requestMode==self.CLOSE_WAIT:
 					# clean up if necessary
 					self.Close()
+					if self.requestQueue:
+						# start again with a new socket
+						continue
 				self.manager._DeactivateConnection(self)
 				rBusy=None;wBusy=None
 				break
@@ -384,7 +387,7 @@ class Connection(object):
 				# requests!
 				self.request.Disconnect()
 				self.request=None
-				self.requestMode==self.CLOSE_WAIT
+				self.requestMode=self.CLOSE_WAIT
 				self.sendBuffer=[]
 			elif nBytes<len(data):
 				# Some of the data went:
-- 
2.43.0


From 2c051bb6353d923e5b9f9bc2efa4fe65ddae622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 087/305] fix: a request that can't be started never finished

---
 pyslet/pyslet/rfc2616.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index c606cb7..eb19a8e 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -348,6 +348,11 @@ class Connection(object):
 		# has been accepted for processing, False otherwise.
 		self.request=request
 		self.request.SetHTTPConnection(self)
+		if self.response:
+			# Queue a response as we're still handling the last one!
+			self.responseQueue.append(HTTPResponse(self.request))
+		else:
+			self.response=HTTPResponse(self.request)
 		headers=self.request.ReadRequestHeader()
 		logging.debug("Sending to %s: \n%s",self.host,headers)
 		self.sendBuffer.append(headers)
@@ -358,11 +363,6 @@ class Connection(object):
 		else:
 			self.requestMode=self.REQ_BODY_SENDING
 		logging.debug("%s: request mode=%s",self.host,self.MODE_STRINGS[self.requestMode])
-		if self.response:
-			# Queue a response as we're still handling the last one!
-			self.responseQueue.append(HTTPResponse(self.request))
-		else:
-			self.response=HTTPResponse(self.request)
 		return True
 		
 	def _SendRequestData(self):
-- 
2.43.0


From 7ce667bedae96cb1ebeef2ba2423f6ab9d26f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 088/305] fix: NameError when a connection is killed while
 connecting

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index eb19a8e..f3d6f10 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -522,7 +522,7 @@ class Connection(object):
 			with self.connectionLock:
 				if self.connectionClosed:
 					# This connection has been killed
-					self._CloseSocket(newS)
+					self._CloseSocket(sNew)
 					logging.error("Connection killed while connecting to %s",self.host)
 					raise HTTPException("Connection closed")
 				else:
-- 
2.43.0


From 9188ae9dce11b7bdc78c7ce9710a0897946d4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 089/305] fix: RemoveCredentials was missing, a 401 could
 resend the request twice

---
 pyslet/pyslet/rfc2616.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index f3d6f10..d5737d1 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -908,6 +908,17 @@ class HTTPRequestManager(object):
 		with self.managerLock:
 			self.credentials.append(credentials)
 	
+	def RemoveCredentials(self,credentials):
+		"""Removes credentials previously added with
+		:py:meth:`AddCredentials`.
+		
+		Does nothing if *credentials* have already been removed."""
+		with self.managerLock:
+			for i in xrange(len(self.credentials)):
+				if self.credentials[i] is credentials:
+					del self.credentials[i]
+					break
+	
 	def DNSLookup(self,host,port):
 		"""Given a host name (string) and a port number performs a DNS lookup
 		using the native socket.getaddrinfo function.  The resulting value is
@@ -1725,6 +1736,7 @@ class HTTPRequest(HTTPMessage):
 				if self.tryCredentials:
 					self.SetHeader('Authorization',str(self.tryCredentials))
 					self.Resend()	# to the same URL
+					break
 
 class HTTPResponse(HTTPMessage):
 	
-- 
2.43.0


From d8d4741e91e02914671af9827867240cfeeffad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 090/305] fix: malformed status lines, chunk sizes, lengths and
 headers are protocol errors

---
 pyslet/pyslet/rfc2616.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index d5737d1..0d83739 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1156,7 +1156,10 @@ class HTTPMessage(object):
 		If no Content-Length header was present None is returned."""
 		fieldValue=self.GetHeader("Content-Length")
 		if fieldValue is not None:
-			return int(fieldValue.strip())
+			fieldValue=fieldValue.strip()
+			if not fieldValue or not IsDIGITS(fieldValue):
+				raise SyntaxError("Bad Content-Length: %s"%repr(fieldValue))
+			return int(fieldValue)
 		else:
 			return None
 
@@ -1876,16 +1879,16 @@ class HTTPResponse(HTTPMessage):
 	
 	def RecvLine(self,line):
 		if self.mode==self.RESP_STATUS:
-			# Read the status line
-			statusLine=ParameterParser(line[:-2],ignoreSpace=False)
-			self.protocolVersion=statusLine.ParseHTTPVersion()
-			statusLine.ParseSP()
-			if statusLine.IsInteger():
-				self.status=statusLine.ParseInteger()
+			# Read the status line, the reason phrase is arbitrary text
+			statusWords=line[:-2].split(None,2)
+			if len(statusWords)<2 or len(statusWords[1])!=3 or not IsDIGITS(statusWords[1]) or int(statusWords[1])<100:
+				raise SyntaxError("Badly formed status line: %s"%repr(line))
+			self.protocolVersion=HTTPVersion.FromString(statusWords[0])
+			self.status=int(statusWords[1])
+			if len(statusWords)>2:
+				self.reason=statusWords[2]
 			else:
-				self.status=0
-			statusLine.ParseSP()
-			self.reason=statusLine.ParseRemainder()
+				self.reason=''
 			self.mode=self.RESP_HEADER
 		elif self.mode==self.RESP_HEADER:
 			self.ReadHeader(line)
@@ -1906,9 +1909,10 @@ class HTTPResponse(HTTPMessage):
 				self.request.HandleResponseHeader()
 		elif self.mode==self.RESP_CHUNK_SIZE:
 			# Read the chunk size
-			p=ParameterParser(line[:-2])
-			chunkLine=p.ParseToken()
-			self.transferLength=int(chunkLine,16)
+			chunkSize=line[:-2].split(';',1)[0].strip()
+			if not chunkSize or not IsHEXDIGITS(chunkSize):
+				raise SyntaxError("Badly formed chunk size: %s"%repr(line))
+			self.transferLength=int(chunkSize,16)
 			self.transferPos=0
 			if self.transferLength==0:
 				# We've read the last chunk, parse through any headers
@@ -1951,7 +1955,7 @@ class HTTPResponse(HTTPMessage):
 					self.currHeader=ch
 				else:
 					# badly formed header line
-					raise HTTP2616ProtocolError("Badly formed header line: %s"%h)
+					raise SyntaxError("Badly formed header line: %s"%repr(h))
 			return True
 
 	def RecvBytes(self,data):
-- 
2.43.0


From 76644d9065280c95198cecbc350dd3b77047cfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 091/305] fix: leading space was kept in received header values

---
 pyslet/pyslet/rfc2616.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 0d83739..ada0c80 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1321,7 +1321,7 @@ class HTTPMessage(object):
 			return
 		# If there is an encoding other than 'identity' then we're using chunked
 		encoding=self.GetTransferEncoding()
-		if encoding is not None and encoding!="identity":
+		if encoding is not None and encoding.strip().lower()!="identity":
 			self.transferChunked=True
 			self.transferLength=None
 			# overrides any Content-Length setting
@@ -1938,8 +1938,8 @@ class HTTPResponse(HTTPMessage):
 	def ReadHeader(self,h):
 		if h==CRLF:
 			if self.currHeader:
-				# strip off the trailing CRLF
-				self.SetHeader(self.currHeader[0],self.currHeader[1][:-2],True)
+				# leading and trailing space is not part of the value
+				self.SetHeader(self.currHeader[0],self.currHeader[1].strip(),True)
 				self.currHeader=None
 			return False
 		else:
@@ -1949,7 +1949,7 @@ class HTTPResponse(HTTPMessage):
 				self.currHeader[1]=self.currHeader[1]+h
 			else:
 				if self.currHeader:
-					self.SetHeader(self.currHeader[0],self.currHeader[1][:-2],True)
+					self.SetHeader(self.currHeader[0],self.currHeader[1].strip(),True)
 				ch=h.split(':',1)
 				if len(ch)==2:
 					self.currHeader=ch
-- 
2.43.0


From 88a034436e2f8621f3c77cf7febb5daf6496cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 092/305] fix: the Authorization header was passed on to other
 servers on redirect

---
 pyslet/pyslet/rfc2616.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index ada0c80..729c313 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1429,7 +1429,11 @@ class HTTPRequest(HTTPMessage):
 		self.status=0
 		self.error=None
 		if url is not None:
+			oldRoot=self.requestURI.GetCanonicalRoot()
 			self.SetRequestURI(url)
+			if self.requestURI.GetCanonicalRoot()!=oldRoot:
+				# don't pass credentials on to a different server
+				self.SetHeader("Authorization",None)
 		if self.reqBodyStream:
 			self.reqBodyStream.seek(self.reqBodyStart)
 		if self.resBodyStream:
-- 
2.43.0


From c183e3831f0f40ca63a014456ba47f8724ef9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 093/305] fix: requests finishing early or never around 1xx and
 early final responses

---
 pyslet/pyslet/rfc2616.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 729c313..9e2c050 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1566,8 +1566,8 @@ class HTTPRequest(HTTPMessage):
 		request, may be before or after the response is received
 		and handled!"""
 		self.connection=None
-		if self.status>0:
-			# The response has finished
+		if self.status>=200:
+			# The (final) response has finished
 			self.Finished()
 		
 	def ReadRequestHeader(self):
@@ -1692,11 +1692,15 @@ class HTTPRequest(HTTPMessage):
 						# There was more data to send in the request but we
 						# don't plan to send it so we have to hang up!
 						self.connection.RequestDisconnect()
-					# else, we were finished anyway... the connection will discover this itself
-				elif self.response>=200:
+					else:
+						# we were finished anyway... the connection will
+						# discover this itself unless it is waiting
+						self.connection.Continue(self)
+				elif self.response.status>=200:
 					# For 2xx result codes we let the connection finish spooling
-					# and disconnect from us when it is done
-					pass
+					# and disconnect from us when it is done, there's no
+					# point in waiting for a 100 response any more
+					self.connection.Continue(self)
 				else:
 					# A bad information response (with body) or a bad status code
 					self.connection.RequestDisconnect()
-- 
2.43.0


From 4a14df6f6b90ef7c5d6456898fa0b84c20967b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 094/305] fix: an empty chunked body was terminated twice

---
 pyslet/pyslet/rfc2616.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 9e2c050..9bf383e 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1626,10 +1626,11 @@ class HTTPRequest(HTTPMessage):
 			# We're just sending the body string
 			if self.transferChunked:
 				buffer=[]
-				# Send the first chunk size
-				buffer.append("%x\r\n"%len(self.reqBody))
-				buffer.append(self.reqBody)
-				buffer.append(CRLF)
+				if self.reqBody:
+					# Send the first chunk size
+					buffer.append("%x\r\n"%len(self.reqBody))
+					buffer.append(self.reqBody)
+					buffer.append(CRLF)
 				buffer.append("0\r\n\r\n")
 				self.transferPos=len(self.reqBody)
 				self.transferDone=True
-- 
2.43.0


From d5a28d0c8105f3f5c31dc6e7fe2ea419b28c0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 095/305] fix: redirects to relative locations and responses
 with no Location

---
 pyslet/pyslet/rfc2616.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 9bf383e..e85320a 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1733,13 +1733,13 @@ class HTTPRequest(HTTPMessage):
 			# If the 302 status code is received in response to a request other
 			# than GET or HEAD, the user agent MUST NOT automatically redirect the
 			# request unless it can be confirmed by the user
-			location=self.response.GetHeader("Location").strip()
-			if location:
-				url=uri.URIFactory.URI(location)
-				if not url.host:
+			location=self.response.GetHeader("Location")
+			if location is not None and location.strip():
+				url=uri.URIFactory.URI(location.strip())
+				if not url.IsAbsolute():
 					# This is an error but a common one (thanks IIS!)
-					location=location.Resolve(self.requestURI)
-				self.Resend(location)
+					url=url.Resolve(self.requestURI)
+				self.Resend(url)
 		elif self.status==401:
 			challenges=self.response.GetWWWAuthenticate()
 			for c in challenges:
-- 
2.43.0


From 465ea7140ce68e94076922c4893c9305ed28f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 096/305] fix: an incomplete response was reported as a success

---
 pyslet/pyslet/rfc2616.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index e85320a..255d88f 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1983,7 +1983,7 @@ class HTTPResponse(HTTPMessage):
 			if self.transferLength:
 				if self.transferPos>self.transferLength:
 					extra=self.transferPos-self.transferLength
-					self.request.WriteResponse(data[:extra])
+					self.request.WriteResponse(data[:-extra])
 				else:
 					self.request.WriteResponse(data)
 				if self.transferPos>=self.transferLength:
@@ -2005,5 +2005,10 @@ class HTTPResponse(HTTPMessage):
 		response.  We pass this information on to the request.  Note that if we
 		are reading forever 'err' may or may not be set when the server finally
 		hangs up and stops sending."""
-		self.reason=str(err)
+		if self.mode!=self.RESP_DATA or self.transferLength:
+			# the response is incomplete
+			self.status=None
+			if err is None:
+				err=HTTPException("Server disconnected before the response was complete")
+			self.reason=str(err)
 		self.request.ResponseFinished(err)
-- 
2.43.0


From e930f7f4b8fda94c53db1b5a5a0142a17c25398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 097/305] fix: matching credentials to challenges

---
 pyslet/pyslet/rfc2617.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index fa35e05..4a8d5e7 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -143,12 +143,12 @@ class Credentials(object):
 		The match is successful if the authentication scheme, the
 		protection space and the realms match the corresponding values
 		in the challenge."""
-		if self.scheme!=challenge.scheme:
+		if self.scheme is None or self.scheme.lower()!=challenge.scheme.lower():
 			return False
 		if self.protectionSpace!=challenge.protectionSpace:
 			return False
 		if self.realm:
-			if self.realm!=challenge.realm:
+			if self.realm!=challenge["realm"]:
 				return False
 		return True
 
@@ -201,7 +201,7 @@ class BasicCredentials(Credentials):
 	def Match(self,challenge=None,url=None):
 		if challenge is not None:
 			# must match the challenge
-			if not super(BasicCredentials,self).Match(challenge):
+			if not self.MatchChallenge(challenge):
 				return False
 		if url is not None:
 			# must match the url
-- 
2.43.0


From c416ceaa7545bfd07854275c45a99c0853223c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 098/305] fix: basic credentials with colons in passwords or
 invalid data

---
 pyslet/pyslet/rfc2617.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index 4a8d5e7..bae76ea 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -192,11 +192,14 @@ class BasicCredentials(Credentials):
 		self.pathPrefixes=[]	#: a list of path-prefixes for which these credentials are known to be good 
 		
 	def SetBasicCredentials(self,basicCredentials):
-		credentials=base64.b64decode(basicCredentials).split(':')
+		try:
+			credentials=base64.b64decode(basicCredentials).split(':',1)
+		except TypeError:
+			raise SyntaxError("Invalid basic credentials")
 		if len(credentials)==2:
 			self.userid,self.password=credentials
 		else:
-			raise HTTPInvalidBasicCredentials(basicCredentials)
+			raise SyntaxError("Invalid basic credentials")
 
 	def Match(self,challenge=None,url=None):
 		if challenge is not None:
-- 
2.43.0


From f7b704809ed3c4fde038b17740e3473c74b686fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 099/305] fix: empty segments in the middle of a path prefix
 matched anything

---
 pyslet/pyslet/rfc2617.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index bae76ea..d8eaa4f 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -263,8 +263,8 @@ class BasicCredentials(Credentials):
 			return False
 		i=0
 		while i<len(prefix):
-			# note that an empty segment matches anything (except nothing)
-			if prefix[i] and prefix[i]!=path[i]:
+			# note that a trailing empty segment matches anything (except nothing)
+			if prefix[i]!=path[i] and (prefix[i] or i+1<len(prefix)):
 				return False
 			i=i+1
 		return True
-- 
2.43.0


From fa784272bc04f35f98730f9137156115fd2f10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 100/305] fix: several challenges in one WWW-Authenticate
 header

---
 pyslet/pyslet/rfc2617.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index d8eaa4f..e0204c7 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -284,11 +284,16 @@ class AuthorizationParser(ParameterParser):
 		self.ParseSP()
 		authScheme=self.RequireToken("auth scheme")
 		params=[]
+		sepPos=None
 		self.ParseSP()
 		while self.cWord is not None:
 			paramName=self.ParseToken()
 			if paramName is not None:
 				self.ParseSP()
+				if sepPos is not None and not self.IsSeparator('='):
+					# not a parameter, this is the next challenge in a list
+					self.SetPos(sepPos)
+					break
 				self.RequireSeparator('=')
 				self.ParseSP()
 				if self.IsToken():
@@ -299,8 +304,10 @@ class AuthorizationParser(ParameterParser):
 					forceQ=True
 				params.append((paramName,paramValue,forceQ))
 			self.ParseSP()
+			sepPos=self.pos
 			if not self.ParseSeparator(","):
 				break
+			self.ParseSP()
 		if authScheme.lower()=="basic":
 			return BasicChallenge(*params)
 		else:
-- 
2.43.0


From 2050568dd4554d56031a279095c71f932b36da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 101/305] fix: adding large offsets to a time gave a long hour,
 minute or second

---
 pyslet/pyslet/iso8601.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 45db495..3ac1d4b 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1281,7 +1281,7 @@ class Time(object):
 				second=float(s%60)+fs
 			else:
 				minutes+=second//60
-				second=second%60
+				second=int(second%60)
 		minute=self.minute
 		if minutes:
 			if minute is None:
@@ -1296,7 +1296,7 @@ class Time(object):
 				minute=float(m%60)+fm
 			else:
 				hours+=minute//60
-				minute=minute%60
+				minute=int(minute%60)
 		hour=self.hour
 		if hours:
 			hour=hour+hours
@@ -1309,7 +1309,7 @@ class Time(object):
 				hour=float(h%24)+fh
 			else:
 				days+=hour//24
-				hour=hour%24
+				hour=int(hour%24)
 		# always copy time zone from base
 		zDirection,zHour,zMinute=self.GetZone3()
 		return type(self)(hour=hour,minute=minute,second=second,zDirection=zDirection,zHour=zHour,zMinute=zMinute),days
-- 
2.43.0


From 77e29dcc065b8ab817a4dfe2cc30f8a76e264dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 102/305] fix: a date on its own parsed as a time point raised
 TypeError

---
 pyslet/pyslet/iso8601.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 3ac1d4b..cea2425 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -2669,7 +2669,7 @@ class ISO8601Parser(RFC2234CoreParser):
 		d,df=self.ParseDateFormat(base)
 		if not d.Complete():
 			raise DateTimeError("incomplete date in time point %s"%str(d))
-		if self.theChar not in tDesignators:
+		if self.theChar is None or self.theChar not in tDesignators:
 			raise DateTimeError("time-point requires time %s..."%str(d))
 		tDesignator=self.theChar
 		t,overflow,tf=self.ParseTimeFormat(None,tDesignators)
@@ -2687,7 +2687,7 @@ class ISO8601Parser(RFC2234CoreParser):
 		timePoint.date=date
 		if not timePoint.date.Complete():
 			raise DateTimeError("incomplete date in time point %s"%str(timePoint.date))
-		if self.theChar not in tDesignators:
+		if self.theChar is None or self.theChar not in tDesignators:
 			raise DateTimeError("time-point requires time %s..."%str(timePoint.date))
 		tDesignator=self.theChar
 		t,overflow,timeFormat=self.ParseTimeFormat(None,tDesignators)
@@ -3113,7 +3113,7 @@ class ISO8601Parser(RFC2234CoreParser):
 			self.SyntaxError("expected digit or hyphen in ISO date")
 	
 	def ParseTimeFormat(self,base=None,tDesignators="T"):
-		if self.theChar in tDesignators:
+		if self.theChar is not None and self.theChar in tDesignators:
 			self.NextChar()
 			tDesignator=1
 		else:
-- 
2.43.0


From 8bf92224e1dfef479eb60d77c2dd0f594336c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 103/305] fix: reading complex values with missing complex
 properties from JSON

---
 pyslet/pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 0c487b0..55f749e 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2271,7 +2271,7 @@ def ReadEntityCTValue(complexValue,obj):
 			else:
 				ReadEntityCTValue(v,obj[k])
 		else:
-			v.SetFromValue(None)
+			v.SetNull()
 	
 
 TICKS_PER_DAY=86400000
-- 
2.43.0


From 81109afcaf27537eebbce9557b847dfa7886030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 104/305] fix: JSON dates were a millisecond out from rounding

---
 pyslet/pyslet/odata2/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 55f749e..4f9e733 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2305,7 +2305,7 @@ def EntityPropertyValueInJSON(v):
 		return unicode(v)
 	elif isinstance(v,edm.DateTimeValue):
 		# a strange format based on ticks, by definition, DateTime has no offset
-		ticks=(v.value.date.GetAbsoluteDay()-BASE_DAY)*TICKS_PER_DAY+int(v.value.time.GetTotalSeconds()*1000)
+		ticks=(v.value.date.GetAbsoluteDay()-BASE_DAY)*TICKS_PER_DAY+int(round(v.value.time.GetTotalSeconds()*1000))
 		return json.dumps("/Date(%i)/"%ticks)
 	elif isinstance(v,(edm.DecimalValue,edm.DoubleValue,edm.GuidValue,edm.Int64Value,edm.SingleValue,edm.StringValue,edm.TimeValue)):
 		# just use the literal form as a json string
@@ -2334,9 +2334,9 @@ def ReadEntityPropertyValueInJSON(v,jsonValue):
 		v.SetFromValue(jsonValue)
 	elif isinstance(v,edm.DateTimeValue):
 		if jsonValue.startswith("/Date(") and jsonValue.endswith(")/"):
-			ticks=int(jsonValue[6:-2])
+			day,ticks=divmod(int(jsonValue[6:-2]),TICKS_PER_DAY)
 			t,overflow=iso.Time().Offset(seconds=ticks/1000.0)
-			d=iso.Date(absoluteDay=BASE_DAY+overflow)
+			d=iso.Date(absoluteDay=BASE_DAY+day+overflow)
 			v.SetFromValue(iso.TimePoint(date=d,time=t))
 		else:
 			raise ValueError("Illegal value for DateTime: %s"%jsonValue)		
-- 
2.43.0


From 03fa6c36bbebec63a4e5e1f6b2a9e4b6f0612c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 105/305] fix: DateTimeOffset values could not be written to or
 read from JSON

---
 pyslet/pyslet/odata2/core.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 4f9e733..843071a 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2312,8 +2312,8 @@ def EntityPropertyValueInJSON(v):
 		return json.dumps(unicode(v))
 	elif isinstance(v,(edm.DateTimeOffsetValue)):
 		# a strange format based on ticks, by definition, DateTime has no offset
-		ticks=(v.value.date.GetAbsoluteDay()-BASE_DAY)*TICKS_PER_DAY+int(v.value.time.GetTotalSeconds()*1000)
-		dir,offset=v.GetZone()
+		ticks=(v.value.date.GetAbsoluteDay()-BASE_DAY)*TICKS_PER_DAY+int(round(v.value.time.GetTotalSeconds()*1000))
+		dir,offset=v.value.GetZone()
 		if dir>0:
 			s=u"+"
 		else:
@@ -2345,25 +2345,26 @@ def ReadEntityPropertyValueInJSON(v,jsonValue):
 		v.SetFromLiteral(jsonValue)
 	elif isinstance(v,(edm.DateTimeOffsetValue)):
 		if jsonValue.startswith("/Date(") and jsonValue.endswith(")/"):
-			ticks=int(jsonValue[6:-2])
-			if '+' in ticks:
+			ticks=jsonValue[6:-2]
+			# the first character may be the sign of the tick count
+			if '+' in ticks[1:]:
 				# split by +
-				ticks=ticks.split('+')
+				ticks,zOffset=ticks.rsplit('+',1)
 				zDir=1
-			elif '-' in ticks:
+			elif '-' in ticks[1:]:
 				# split by -
-				ticks=ticks.split('-')
+				ticks,zOffset=ticks.rsplit('-',1)
 				zDir=-1
-			else:
-				zDir=0
-			if zDir:
-				if len(ticks)!=2:
-					raise ValueError("Illegal value for DateTimeOffset: %s"%jsonValue)
-				zOffset=int(ticks[1])
 			else:
 				zOffset=0
-			t,overflow=Time().Offset(seconds=int(ticks[0])/1000.0).WithZone(zDir,zOffset//60,zOffset%60)
-			d=Date(absoluteDay=BASE_DAY+overflow)
+				zDir=0
+			zOffset=int(zOffset)
+			if zOffset==0:
+				zDir=0
+			day,ticks=divmod(int(ticks),TICKS_PER_DAY)
+			t,overflow=iso.Time().Offset(seconds=ticks/1000.0)
+			t=t.WithZone(zDir,zOffset//60,zOffset%60)
+			d=iso.Date(absoluteDay=BASE_DAY+day+overflow)
 			v.SetFromValue(iso.TimePoint(date=d,time=t))
 		else:
 			raise ValueError("Illegal value for DateTimeOffset: %s"%jsonValue)			
-- 
2.43.0


From 6407cfaa945824fde5c9a0ad6b9c42ebc6e40ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 106/305] fix: white space and empty strings in OData property
 elements were normalized

---
 pyslet/pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 843071a..3a34e51 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2656,7 +2656,11 @@ class Property(ODataElement):
 				# If we have no parent then we set the type attribute
 				self.SetAttribute((ODATA_METADATA_NAMESPACE,'type'),edm.SimpleType.EncodeValue(value.typeCode))				
 			if value:
-				ODataElement.SetValue(self,unicode(value))
+				text=unicode(value)
+				if text!=xml.CollapseSpace(text,True):
+					# protect white space from being normalized on output
+					self.SetSpace('preserve')
+				ODataElement.SetValue(self,text)
 			else:
 				self.SetAttribute((ODATA_METADATA_NAMESPACE,'null'),"true")
 		elif isinstance(value,edm.Complex):
-- 
2.43.0


From e4aadfec3f0895fa0d2434652576493914592777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 107/305] fix: NameError taking the length of a name table

---
 pyslet/pyslet/odata2/csdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 89397a7..8ab87d7 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -391,8 +391,9 @@ class NameTableMixin(DictionaryLike):
 		compounded keys from nested scopes."""
 		result=len(self.nameTable)
 		for value in self.nameTable.itervalues():
-			if isinstance(value,NameTableMixim):
+			if isinstance(value,NameTableMixin):
 				result=result+len(value)
+		return result
 			
 	def _SplitKey(self,key):
 		sKey=key.split(".")
-- 
2.43.0


From a0e5b46b38f4351a31910ad720f3e9b6e0968832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 108/305] fix: time literals with no fractional digits raise
 ValueError

---
 pyslet/pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 8ab87d7..e8e1664 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -604,7 +604,7 @@ class Parser(xsi.BasicParser):
 			if self.Parse(":"):
 				second=self.RequireProduction(self.ParseInteger(0,60,2),"second")
 				if self.Parse("."):
-					nano=self.ParseDigits(1,7)
+					nano=self.RequireProduction(self.ParseDigits(1,7),"fractional seconds")
 					second+=float("0."+nano)					
 			else:
 				second=0
@@ -704,7 +704,7 @@ class Parser(xsi.BasicParser):
 			if self.Parse(":"):
 				second=self.RequireProduction(self.ParseInteger(0,60,2),"second")
 				if self.Parse("."):
-					nano=self.ParseDigits(1,7)
+					nano=self.RequireProduction(self.ParseDigits(1,7),"fractional seconds")
 					second+=float("0."+nano)					
 			else:
 				second=0
-- 
2.43.0


From 6ee43089880290d6442f203de1a5416ea682b80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 109/305] fix: hyphens were optional in Guid literals

---
 pyslet/pyslet/odata2/csdl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index e8e1664..6ab49a2 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -630,13 +630,13 @@ class Parser(xsi.BasicParser):
 			# dddddddd-dddd-dddd-dddd-dddddddddddd where each d represents [A-Fa-f0-9]
 			guid=[]
 			guid.append(self.RequireProduction(self.ParseHexDigits(8,8),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(4,4),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(4,4),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(4,4),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(12,12),production))
 			value=uuid.UUID(string.join(guid,''))
 		except ValueError:
-- 
2.43.0


From 2a209774ba1055fa6090c135d549c8a12cedd8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 110/305] fix: Time values in NewSimpleValueFromValue

---
 pyslet/pyslet/odata2/csdl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 6ab49a2..e65baa6 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -792,6 +792,8 @@ class EDMValue(object):
 				result=cls.NewSimpleValue(SimpleType.DateTime)
 			else:
 				result=cls.NewSimpleValue(SimpleType.DateTimeOffset)
+		elif isinstance(value,iso8601.Time):
+			result=cls.NewSimpleValue(SimpleType.Time)
 		elif isinstance(value,decimal.Decimal):
 			result=cls.NewSimpleValue(SimpleType.Decimal)
 		elif isinstance(value,datetime.datetime):
-- 
2.43.0


From 95c6175ca303641811e53a9c4c0de0f085a95757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 111/305] fix: formatting NULL raises ValueError, not
 AttributeError

---
 pyslet/pyslet/odata2/csdl.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index e65baa6..0b08a92 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -850,6 +850,17 @@ class SimpleValue(EDMValue):
 		using
 		:py:meth:`SetFromValue` or one of the other related methods."""
 
+	@property
+	def name(self):
+		"""The name of the property this value belongs to or, if it is
+		undeclared, the name of its type (for use in messages)."""
+		if self.pDef:
+			return self.pDef.name
+		elif self.typeCode is None:
+			return u"Value"
+		else:
+			return SimpleType.EncodeValue(self.typeCode)
+
 	def IsNull(self):
 		return self.value is None
 	
-- 
2.43.0


From 57fd53c5afcf2e5150ff3dcdb8c4725996bfb8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 112/305] fix: NameError in SimpleValue.Copy

---
 pyslet/pyslet/odata2/csdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 0b08a92..b07d762 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -937,10 +937,10 @@ class SimpleValue(EDMValue):
 	@classmethod
 	def Copy(cls,value):
 		"""Constructs a new SimpleValue instance by copying *value*"""
-		if self.pDef:
-			result=value.__class__(self.pDef)
+		if value.pDef:
+			result=value.__class__(value.pDef)
 		else:
-			result=EdmValue.NewSimpleValue(self.typeCode)
+			result=EDMValue.NewSimpleValue(value.typeCode)
 		result.value=value.value
 		return result
 
-- 
2.43.0


From b1174aec2a1432cbbd97682dae637aef13387df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 113/305] fix: out of range unix times raise ValueError

---
 pyslet/pyslet/odata2/csdl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index b07d762..66169ee 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1138,7 +1138,10 @@ class DateTimeValue(SimpleValue):
 		elif isinstance(newValue,iso8601.TimePoint):
 			self.value=newValue.WithZone(zDirection=None)
 		elif (isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType)) and newValue>=0:
-			self.value=iso8601.TimePoint.FromUnixTime(float(newValue))
+			try:
+				self.value=iso8601.TimePoint.FromUnixTime(float(newValue))
+			except (iso8601.DateTimeError,OverflowError) as e:
+				raise ValueError("Can't set DateTime from %s: %s"%(repr(newValue),str(e)))
 		elif isinstance(newValue,datetime.datetime):
 			self.value=iso8601.TimePoint(date=iso8601.Date(century=newValue.year//100,year=newValue.year%100,
 				month=newValue.month,day=newValue.day),
-- 
2.43.0


From e11452b79caded9707191b2de3605f0a12c0001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 114/305] fix: microseconds were lost setting DateTime from
 datetime

---
 pyslet/pyslet/odata2/csdl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 66169ee..38020ae 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1143,9 +1143,12 @@ class DateTimeValue(SimpleValue):
 			except (iso8601.DateTimeError,OverflowError) as e:
 				raise ValueError("Can't set DateTime from %s: %s"%(repr(newValue),str(e)))
 		elif isinstance(newValue,datetime.datetime):
+			second=newValue.second
+			if newValue.microsecond:
+				second+=newValue.microsecond/1000000.0
 			self.value=iso8601.TimePoint(date=iso8601.Date(century=newValue.year//100,year=newValue.year%100,
 				month=newValue.month,day=newValue.day),
-				time=iso8601.Time(hour=newValue.hour,minute=newValue.minute,second=newValue.second,zDirection=None))
+				time=iso8601.Time(hour=newValue.hour,minute=newValue.minute,second=second,zDirection=None))
 		else:
 			raise TypeError("Can't set DateTime from %s"%repr(newValue))
 
-- 
2.43.0


From fad1954aec48d6f0f3e2fddf4459a5859d80869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 115/305] fix: badly formed DateTimeOffset literals raise
 ValueError

---
 pyslet/pyslet/odata2/csdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 38020ae..eb271f5 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -10,6 +10,7 @@ import pyslet.rfc2396 as uri
 import pyslet.rfc2616 as http
 import pyslet.xsdatatypes20041028 as xsi
 from pyslet.vfs import OSFilePath
+from pyslet.rfc2234 import RFCSyntaxError
 import pyslet.iso8601 as iso8601
 import logging
 
@@ -1200,7 +1201,7 @@ class DateTimeOffsetValue(SimpleValue):
 	def SetFromLiteral(self,value):
 		try:
 			value=iso8601.TimePoint.FromString(value)
-		except iso8601.DateTimeError as e:
+		except (iso8601.DateTimeError,RFCSyntaxError) as e:
 			raise ValueError(str(e))
 		self.SetFromValue(value)
 
-- 
2.43.0


From b46db7d51249dfccad8ed13c0a8885b13dc55fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 116/305] fix: DateTimeOffset set from unix time had no zone

---
 pyslet/pyslet/odata2/csdl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index eb271f5..9dee66d 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1216,7 +1216,10 @@ class DateTimeOffsetValue(SimpleValue):
 				raise ValueError("DateTimeOffset requires a complete representation: %s"%str(newValue))
 			self.value=newValue	
 		elif (isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType)) and newValue>=0:
-			self.value=iso8601.TimePoint.FromUnixTime(float(newValue))
+			try:
+				self.value=iso8601.TimePoint.FromUnixTime(float(newValue)).WithZone(zDirection=0)
+			except (iso8601.DateTimeError,OverflowError) as e:
+				raise ValueError("Can't set DateTimeOffset from %s: %s"%(repr(newValue),str(e)))
 		else:
 			raise TypeError("Can't set DateTimeOffset from %s"%str(newValue))
 
-- 
2.43.0


From 61f73635d05346bc69e5dcd1bd3523980c1b1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 117/305] fix: setting Time from a number of seconds

---
 pyslet/pyslet/odata2/csdl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 9dee66d..b7bce28 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1266,15 +1266,15 @@ class TimeValue(SimpleValue):
 		elif isinstance(newValue,iso8601.Time):
 			self.value=newValue			
 		elif (isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType)) and newValue>=0:
-			if newValue<0:
-				raise("Can't set Time from %.3f"%float(newValue))
-			tValue=iso8601.Time()
+			if newValue>=86400:
+				raise ValueError("Can't set Time from %.3f (overflow)"%float(newValue))
+			tValue=iso8601.Time(hour=0,minute=0,second=0,zDirection=None)
 			if type(newValue) in (IntType,LongType):
-				tValue,days=tValue.Offset(newValue)
+				tValue,days=tValue.Offset(seconds=newValue)
 			else:
-				tValue,days=tValue.Offset(float(newValue))
+				tValue,days=tValue.Offset(seconds=float(newValue))
 			if days>0:
-				raise("Can't set Time from %.3f (overflow)"%float(newValue))
+				raise ValueError("Can't set Time from %.3f (overflow)"%float(newValue))
 			self.value=tValue
 		else:
 			raise TypeError("Can't set Time from %s"%repr(newValue))
-- 
2.43.0


From 66d7cfddfdabf8e63168c46ea80182625b30c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 118/305] fix: the 29 digit limits of Decimal were blurred by
 rounding and NaN

---
 pyslet/pyslet/odata2/csdl.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index b7bce28..a6c638a 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1287,15 +1287,14 @@ class DecimalValue(NumericValue):
 	more than 29 digits to the left and right of the decimal point.
 
 	Decimal values can be set from int, long, float or Decimal values."""
-	Max=decimal.Decimal(10)**29-1		# max decimal in the default context
+	Max=decimal.Decimal('9'*29+'.'+'9'*29)		# the largest number of digits allowed
 	Min=decimal.Decimal(10)**-29		# min decimal for string representation
+	Context=decimal.Context(prec=60)	# enough for both sides of the point
 	
 	@classmethod
 	def abs(cls,d):
-		if d<0:
-			return -d
-		else:
-			return d
+		# unlike the unary operators, copy_abs never rounds
+		return d.copy_abs()
 			
 	def __unicode__(self):
 		if self.value is None:
@@ -1303,7 +1302,7 @@ class DecimalValue(NumericValue):
 		t=self.value.as_tuple()
 		if t.exponent<-29:
 			# CSDL expects a 29-digit limit to the right of the point
-			d=self.value.quantize(decimal.Decimal(10)**-29)
+			d=self.value.quantize(self.Min,context=self.Context)
 		elif t.exponent+len(t.digits)>29:
 			# CSDL expects a 29-digit limit to the left of the point
 			raise ValueError("Value exceeds limits for Decimal: %s"%str(self.value))
@@ -1334,7 +1333,7 @@ class DecimalValue(NumericValue):
 			d=decimal.Decimal(newValue)
 		else:
 			raise TypeError("Can't set Decimal from %s"%str(newValue))	
-		if self.abs(d)>self.Max:
+		if d.is_nan() or self.abs(d)>self.Max:
 			# too big for CSDL decimal forms
 			raise ValueError("Value exceeds limits for Decimal: %s"%str(d))
 		# in the interests of maintaining accuracy we don't limit the
-- 
2.43.0


From 44d9088764e113727616b2ae3ac9b383add53d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 119/305] fix: floating point literals lost precision, could
 not be read back or overflowed

---
 pyslet/pyslet/odata2/csdl.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index a6c638a..70807e3 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1355,7 +1355,36 @@ class FloatValue(NumericValue):
 	:py:class:`DoubleValue` only differ in the Max value used
 	when range checking.
 	
-	Values are formatted using Python's default unicode conversion."""
+	Values are formatted using Python's repr function, as that preserves
+	the value, omitting the sign of positive exponents as they are not
+	allowed in literals."""
+	
+	MaxDigits=17
+	"""the maximum number of digits allowed in the exponent form"""
+
+	def __unicode__(self):
+		if self.value is None:
+			raise ValueError("%s is Null"%self.name)
+		result=repr(self.value).lower()
+		if 'e' in result:
+			if len(result.split('e')[0].strip('-').replace('.',''))>self.MaxDigits:
+				if abs(self.value)>=1:
+					result='%.1f'%self.value
+				else:
+					result='%.*e'%(self.MaxDigits-1,self.value)
+			result=result.replace('e+','e')
+		return unicode(result)
+
+	def SetFromFiniteLiteral(self,numericValue,dStr):
+		"""Sets the value from *dStr*, the joined form of *numericValue*
+		
+		A number that is too big for float is out of range, it does not
+		become an infinity."""
+		newValue=float(dStr)
+		if math.isinf(newValue) and not numericValue.lDigits.isalpha():
+			raise ValueError("Value out of range: %s"%dStr)
+		self.SetFromValue(newValue)
+
 	def SetFromValue(self,newValue):
 		if newValue is None:
 			self.value=None
@@ -1409,7 +1438,7 @@ class DoubleValue(FloatValue):
 					(len(numericValue.eDigits)>3 or			# long exponent not allowed
 					not numericValue.lDigits))):			# exponent requires digits to left of point			
 				raise ValueError("Illegal exponent form for double: %s"%dStr)				
-		self.SetFromValue(float(dStr))
+		self.SetFromFiniteLiteral(numericValue,dStr)
 
 
 for i in xrange(1023,0,-1):
@@ -1437,6 +1466,7 @@ class SingleValue(FloatValue):
 	unlikely to be an issue unless you've compiled Python on in a very
 	unusual environment."""
 	# Min=2.0**-149				#: the smallest positive single value
+	MaxDigits=9
 
 	def SetFromNumericLiteral(self,numericValue):
 		"""Decodes a Single value from a :py:class:`Numeric` literal."""
@@ -1466,7 +1496,7 @@ class SingleValue(FloatValue):
 					(len(numericValue.eDigits)>2 or			# long exponent not allowed
 					not numericValue.lDigits))):			# exponent requires digits to left of point			
 				raise ValueError("Illegal exponent form for single: %s"%dStr)				
-		self.SetFromValue(float(dStr))
+		self.SetFromFiniteLiteral(numericValue,dStr)
 
 
 for i in xrange(127,0,-1):
-- 
2.43.0


From 3a35ab2da8575144c91f99dfa84d5e1afe4ee5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 120/305] fix: Complex.SetFromComplex copied the value to
 itself

---
 pyslet/pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 70807e3..84e8939 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1747,13 +1747,13 @@ class Complex(EDMValue,TypeInstance):
 				continue
 			if isinstance(v,Complex):
 				if isinstance(nv,Complex):
-					self[k].SetFromComplex(v)
+					self[k].SetFromComplex(nv)
 				else:
 					raise ValueError("Can't set Complex property from %s"%repr(nv))
 			elif isinstance(nv,Complex):
 				continue
 			else:
-				self[k].SetFromSimpleValue(v)
+				self[k].SetFromSimpleValue(nv)
 
 			
 class DeferredValue(object):
-- 
2.43.0


From f4c2681068c754018cf25454b21c0a0fd033dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 121/305] fix: Entity.SetFromEntity copied the value to itself

---
 pyslet/pyslet/odata2/csdl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 84e8939..08f8339 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -2035,18 +2035,18 @@ class Entity(TypeInstance):
 		for k,v in self.DataItems():
 			if k in self.entitySet.keys:
 				continue
-			newValue=newValue.get(k,None)
-			if newValue is None:
+			nv=newValue.get(k,None)
+			if nv is None:
 				continue
 			if isinstance(v,Complex):
-				if isinstance(newValue,Complex):
-					self[k].SetFromComplex(v)
+				if isinstance(nv,Complex):
+					self[k].SetFromComplex(nv)
 				else:
 					continue
-			elif isinstance(newValue,Complex):
+			elif isinstance(nv,Complex):
 				continue
 			else:
-				self[k].SetFromSimpleValue(v)
+				self[k].SetFromSimpleValue(nv)
 				
 	def NavigationKeys(self):
 		"""Iterates through the names of this entity's navigation properties only.
-- 
2.43.0


From f51d94b2fc5c8c61bc1c286c6a8d0242ed27ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 122/305] fix: OData expressions with a missing bracket or
 comma were accepted

---
 pyslet/pyslet/odata2/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 3a34e51..added1a 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1122,7 +1122,7 @@ class Parser(edm.Parser):
 			if rightOp is None:
 				if self.Parse("("):
 					rightOp=self.RequireProduction(self.ParseCommonExpression(),"commonExpression inside parenExpression")
-					self.RequireProduction(self.Parse(")"),"closing bracket in parenExpression")
+					self.Require(")","closing bracket in parenExpression")
 				elif self.Parse("-"):
 					rightOp=UnaryExpression(Operator.negate)
 				elif leftOp:
@@ -1192,7 +1192,7 @@ class Parser(edm.Parser):
 			
 	def ParseMethodCallExpression(self,methodCall):
 		method=CallExpression(methodCall)
-		self.RequireProduction(self.Parse("("),"opening bracket in methodCallExpression")
+		self.Require("(","opening bracket in methodCallExpression")
 		while True:
 			self.ParseWSP()
 			param=self.RequireProduction(self.ParseCommonExpression(),"methodCall argument")
@@ -1218,12 +1218,12 @@ class Parser(edm.Parser):
 				# first parameter omitted
 				stringParam=firstParam
 			else:
-				self.RequireProduction(self.Parse(","),"',' in %s"%name)
+				self.Require(",",name)
 				self.ParseWSP()
 				stringParam=self.RequireProduction(self.ParseCommonExpression(),"%s argument"%name)
 				e.AddOperand(stringParam)
 				self.ParseWSP()
-				self.RequireProduction(self.Parse(")"),"')' after %s"%name)
+				self.Require(")",name)
 			# Final check, the string parameter must be a string literal!
 			if not isinstance(stringParam,LiteralExpression) or stringParam.value.typeCode!=edm.SimpleType.String:
 				raise ValueError("%s requires string literal")
-- 
2.43.0


From e06f9ac0398a148197d544007f9160914407c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 123/305] fix: a bracketed unary expression could not be
 followed by an operator

---
 pyslet/pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index added1a..67800b6 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1098,6 +1098,8 @@ class Parser(edm.Parser):
 		opStack=[]
 		while True:
 			self.ParseWSP()
+			# set when we've parsed a unary operator (rather than an operand)
+			unary=False
 			value=self.ParseURILiteral()
 			if value is not None:
 				rightOp=LiteralExpression(value)
@@ -1106,6 +1108,7 @@ class Parser(edm.Parser):
 				if name=="not":
 					self.RequireProduction(self.ParseWSP(),"WSP after not")
 					rightOp=UnaryExpression(Operator.boolNot)
+					unary=True
 				elif name=="isof":
 					self.ParseWSP()
 					rightOp=self.RequireProduction(self.ParseCastLike(Operator.isof,"isof"),"isofExpression")
@@ -1125,6 +1128,7 @@ class Parser(edm.Parser):
 					self.Require(")","closing bracket in parenExpression")
 				elif self.Parse("-"):
 					rightOp=UnaryExpression(Operator.negate)
+					unary=True
 				elif leftOp:
 					# an operator waiting for an operand is an error
 					raise ValueError("Expected expression after %s in ...%s"%(Operator.EncodeValue(leftOp.operator),self.Peek(10)))
@@ -1132,7 +1136,7 @@ class Parser(edm.Parser):
 					# no common expression found at all
 					return None
 			# if we already have a (unary) operator, skip the search for a binary operator
-			if not isinstance(rightOp,UnaryExpression):
+			if not unary:
 				operand=rightOp
 				self.ParseWSP()
 				if self.Parse("/"):
-- 
2.43.0


From 6fc6fb21ee419b21dd345a3920c2ae8d26562530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 124/305] fix: stacked unary operators bound nothing to the
 outer operator

---
 pyslet/pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 67800b6..d49f926 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1175,7 +1175,7 @@ class Parser(edm.Parser):
 			# rightOp (an operator expression, never None)
 			# next job, determine who binds more tightly, left or right?
 			while True:
-				if leftOp is None or leftOp<rightOp:
+				if leftOp is None or operand is None or leftOp<rightOp:
 					# bind the operand to the right, in cases of equal precedence we left associate 1+2-3 = (1+2)-3
 					if operand is not None:
 						rightOp.AddOperand(operand)
-- 
2.43.0


From 0b30a65d5df52f8016887ccdadd6d2519d69a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 125/305] fix: not was accepted as a binary operator

---
 pyslet/pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index d49f926..f02304d 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1148,7 +1148,7 @@ class Parser(edm.Parser):
 					if name is not None:
 						try:
 							opCode=Operator.DecodeValue(name)
-							if opCode in Operator.IsSpecial:
+							if opCode in Operator.IsSpecial or opCode==Operator.boolNot:
 								raise ValueError
 							rightOp=BinaryExpression(opCode)
 						except ValueError:
-- 
2.43.0


From c5c81c6d0a1e07c6a706d46c9b4cb3095f377848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 126/305] fix: expressions lost brackets and failed when
 written out

---
 pyslet/pyslet/odata2/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index f02304d..23b3255 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -320,8 +320,10 @@ class UnaryExpression(CommonExpression):
 		else:
 			op=u"%s "%Operator.EncodeValue(self.operator)
 		rValue=self.operands[0]
-		if rValue.operator is not None and rValue<self:
-			# right expression is weaker than us, use brackets
+		if (rValue.operator is not None and rValue<self) or (
+			self.operator==Operator.negate and isinstance(rValue,LiteralExpression)):
+			# right expression is weaker than us (or is a literal which
+			# would absorb our sign), use brackets
 			result="%s(%s)"%(op,unicode(rValue))
 		else:
 			result="%s%s"%(op,unicode(rValue))
@@ -394,14 +396,17 @@ class BinaryExpression(CommonExpression):
 		else:
 			op=u" %s "%Operator.EncodeValue(self.operator)
 		lValue=self.operands[0]
+		if len(self.operands)==1:
+			# the optional first parameter of cast or isof was omitted
+			return string.join((opPrefix,unicode(lValue),opSuffix),'')
 		rValue=self.operands[1]
 		if lValue.operator is not None and lValue<self:
 			# left expression is weaker than us, use brackets
 			lValue="(%s)"%unicode(lValue)
 		else:
 			lValue=unicode(lValue)
-		if rValue.operator is not None and rValue<self:
-			# right expression is weaker than us, use brackets
+		if rValue.operator is not None and (rValue<self or (rValue<=self and not opPrefix)):
+			# right expression is no stronger than us, use brackets as we left associate
 			rValue="(%s)"%unicode(rValue)
 		else:
 			rValue=unicode(rValue)
-- 
2.43.0


From 45699f2cf8e3f80dee41d924273996e80dfdd89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 127/305] fix: wrong operator in the message for unwritable
 expressions

---
 pyslet/pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 23b3255..5f7373b 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -392,7 +392,7 @@ class BinaryExpression(CommonExpression):
 				op=","
 				opSuffix=")"
 			else:
-				raise ValueError("Can't format %s as a binary operator"&Operator.EncodeValue(self.operator))
+				raise ValueError("Can't format %s as a binary operator"%Operator.EncodeValue(self.operator))
 		else:
 			op=u" %s "%Operator.EncodeValue(self.operator)
 		lValue=self.operands[0]
-- 
2.43.0


From fbe3e5facbf34dd6ac6b0c10b06735b643d096c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 128/305] fix: integer div and mod lost precision for large
 values

---
 pyslet/pyslet/odata2/core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 5f7373b..faf77d7 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -504,8 +504,11 @@ class BinaryExpression(CommonExpression):
 				result=edm.EDMValue.NewSimpleValue(typeCode)
 				if lValue and rValue:
 					# OData doesn't really specify integer division rules so
-					# we use floating point division and truncate towards zero
-					result.SetFromValue(int(float(lValue.value)/float(rValue.value)))
+					# we divide exactly and truncate towards zero
+					quotient=abs(lValue.value)//abs(rValue.value)
+					if (lValue.value<0)!=(rValue.value<0):
+						quotient=-quotient
+					result.SetFromValue(quotient)
 				return result
 			elif typeCode is None:	# null div null
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
@@ -530,8 +533,11 @@ class BinaryExpression(CommonExpression):
 				result=edm.EDMValue.NewSimpleValue(typeCode)
 				if lValue and rValue:
 					# OData doesn't really specify integer division rules so
-					# we use floating point division and truncate towards zero
-					result.SetFromValue(int(math.fmod(float(lValue.value),float(rValue.value))))
+					# the remainder takes the sign of the dividend
+					remainder=abs(lValue.value)%abs(rValue.value)
+					if lValue.value<0:
+						remainder=-remainder
+					result.SetFromValue(remainder)
 				return result
 			elif typeCode is None:	# null div null
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
-- 
2.43.0


From 1e89171340ef249fc0c4769770b9c65e696f5cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 129/305] fix: Decimal mod used binary floats, undefined
 operations escaped

---
 pyslet/pyslet/odata2/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index faf77d7..82587f0 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -514,13 +514,20 @@ class BinaryExpression(CommonExpression):
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
 			else:
 				raise EvaluationError("Illegal operands for div")
-		except ZeroDivisionError as e:
+		except (ZeroDivisionError,decimal.InvalidOperation) as e:
 			raise EvaluationError(str(e))
 	
 	def EvaluateMod(self,lValue,rValue):
 		try:
 			typeCode=self.PromoteOperands(lValue,rValue)
-			if typeCode in (edm.SimpleType.Single, edm.SimpleType.Double, edm.SimpleType.Decimal):
+			if typeCode==edm.SimpleType.Decimal:
+				lValue=lValue.SimpleCast(typeCode)
+				rValue=rValue.SimpleCast(typeCode)
+				result=edm.EDMValue.NewSimpleValue(typeCode)
+				if lValue and rValue:
+					result.SetFromValue(lValue.value%rValue.value)
+				return result
+			elif typeCode in (edm.SimpleType.Single, edm.SimpleType.Double):
 				lValue=lValue.SimpleCast(typeCode)
 				rValue=rValue.SimpleCast(typeCode)
 				result=edm.EDMValue.NewSimpleValue(typeCode)
@@ -543,7 +550,7 @@ class BinaryExpression(CommonExpression):
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
 			else:
 				raise EvaluationError("Illegal operands for div")
-		except (ZeroDivisionError,ValueError) as e:
+		except (ZeroDivisionError,ValueError,decimal.InvalidOperation) as e:
 			raise EvaluationError(str(e))
 				
 	def EvaluateAdd(self,lValue,rValue):
-- 
2.43.0


From 005021420dc90fe852de74c6468279c9e9d32d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 130/305] fix: comparing a value with null compared with None

---
 pyslet/pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 82587f0..2b0cd22 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -610,7 +610,11 @@ class BinaryExpression(CommonExpression):
 			return result
 		elif typeCode in (edm.SimpleType.String, edm.SimpleType.DateTime, edm.SimpleType.Guid):
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
-			result.SetFromValue(relation(lValue.value,rValue.value))
+			if lValue and rValue:
+				result.SetFromValue(relation(lValue.value,rValue.value))
+			else:
+				# one of the operands is null => False
+				result.SetFromValue(False)
 			return result
 		elif typeCode is None:	# e.g., null lt null
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
-- 
2.43.0


From 5f816ac2f2e11c32a56088253ea006e76b2ab98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 131/305] fix: negating an entity or complex value was an
 internal error

---
 pyslet/pyslet/odata2/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 2b0cd22..bcc3b94 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -334,6 +334,8 @@ class UnaryExpression(CommonExpression):
 		return self.EvalMethod[self.operator](self,rValue)
 
 	def EvaluateNegate(self,rValue):
+		if not isinstance(rValue,edm.SimpleValue):
+			raise EvaluationError("Illegal operand for negate")
 		typeCode=rValue.typeCode
 		if typeCode in (edm.SimpleType.Byte, edm.SimpleType.Int16):
 			rValue=rValue.SimpleCast(edm.SimpleType.Int32)
-- 
2.43.0


From c9f87d35a842a8831c3df484f64b9508c493bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 132/305] fix: expressions on null, undefined or simple valued
 members

---
 pyslet/pyslet/odata2/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index bcc3b94..c1a34dc 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -798,20 +798,25 @@ class PropertyExpression(CommonExpression):
 		return unicode(self.name)
 			
 	def Evaluate(self,contextEntity):
-		if contextEntity:
+		if isinstance(contextEntity,edm.SimpleValue) and not contextEntity:
+			# e.g., a navigation property that does not point to anything
+			return edm.EDMValue.NewValue(None)
+		elif contextEntity:
 			if isinstance(contextEntity,edm.Entity):
 				if contextEntity.IsEntityCollection(self.name):
 					raise EvaluationError("%s navigation property must have cardinality of 1 or 0..1"%self.name)
 				else:
-					result=contextEntity[self.name]
+					try:
+						result=contextEntity[self.name]
+					except KeyError:
+						raise EvaluationError("Undefined property: %s"%self.name)
 					if isinstance(result,edm.DeferredValue):
 						result=result.GetEntity()
 					if result is None:
 						# The navigation property does not point to anything, return a generic null
 						result=edm.EDMValue.NewValue(None)
 					return result
-			elif self.name in contextEntity:
-				# contextEntity must be a complex value
+			elif isinstance(contextEntity,edm.Complex) and self.name in contextEntity:
 				return contextEntity[self.name]
 			else:
 				raise EvaluationError("Undefined property: %s"%self.name)
-- 
2.43.0


From 441f7b4e0030581160717a26035c840d2b1c6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 133/305] fix: date and time literals lost their fraction

---
 pyslet/pyslet/odata2/csdl.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 08f8339..a486c55 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1092,6 +1092,15 @@ class ByteValue(NumericValue):
 			raise TypeError("Can't set Byte from %s"%str(newValue))	
 
 		
+def _FractionDigits(t,maxDigits=7):
+	"""Returns the number of fraction digits needed to represent the
+	:py:class:`iso8601.Time` instance *t*, up to *maxDigits*"""
+	if not isinstance(t.second,FloatType):
+		return 0
+	digits=("%.*f"%(maxDigits,t.second)).split(".")[1].rstrip("0")
+	return len(digits)
+
+
 class DateTimeValue(SimpleValue):
 	"""Represents a simple value of type Edm.DateTime
 	
@@ -1125,6 +1134,8 @@ class DateTimeValue(SimpleValue):
 		if self.pDef:
 			# check the precision before formatting
 			precision=self.pDef.precision
+		else:
+			precision=_FractionDigits(self.value.time)
 		if precision is None:
 			precision=0
 		return self.value.GetCalendarString(ndp=precision,dp=u".")
@@ -1190,6 +1201,8 @@ class DateTimeOffsetValue(SimpleValue):
 		if self.pDef:
 			# check the precision before formatting
 			precision=self.pDef.precision
+		else:
+			precision=_FractionDigits(self.value.time)
 		if precision is None:
 			precision=0
 		result=self.value.GetCalendarString(ndp=precision,dp=u".")
@@ -1252,6 +1265,8 @@ class TimeValue(SimpleValue):
 		if self.pDef:
 			# check the precision before formatting
 			precision=self.pDef.precision
+		else:
+			precision=_FractionDigits(self.value)
 		if precision is None:
 			precision=0
 		return self.value.GetString(ndp=precision,dp=u".")
-- 
2.43.0


From 7d1904f49327859331569ebd1490a7f7c502ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 134/305] fix: properties named like a literal prefix could not
 be used in expressions

---
 pyslet/pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index c1a34dc..12256c2 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1458,6 +1458,10 @@ class Parser(edm.Parser):
 			name=None
 		if name=="null":
 			return edm.EDMValue.NewSimpleValue(None)
+		elif (nameCase=="X" or name in ("datetimeoffset","datetime","time","binary","guid")) and not self.Match("'"):
+			# a property that happens to share its name with a literal prefix
+			self.SetPos(savePos)
+			return None
 		elif name is None and self.Match("'"):
 			return self.ParseStringURILiteral()
 		elif name is None and self.MatchOne('-.0123456789'):
-- 
2.43.0


From 61c8a09e6ecd260f04acbd1ad8348a21f606b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 135/305] fix: a property whose name starts like inf or nan
 could not be negated, operator aliases were accepted

---
 pyslet/pyslet/odata2/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 12256c2..4953b2b 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1179,6 +1179,9 @@ class Parser(edm.Parser):
 							opCode=Operator.DecodeValue(name)
 							if opCode in Operator.IsSpecial or opCode==Operator.boolNot:
 								raise ValueError
+							if name!=Operator.EncodeValue(opCode):
+								# an alias, for use from Python only
+								raise ValueError
 							rightOp=BinaryExpression(opCode)
 						except ValueError:
 							# this is not an operator we recognise
@@ -1466,6 +1469,12 @@ class Parser(edm.Parser):
 			return self.ParseStringURILiteral()
 		elif name is None and self.MatchOne('-.0123456789'):
 			# one of the number forms (perhaps)
+			if self.Parse('-'):
+				name=self.ParseSimpleIdentifier()
+				self.SetPos(savePos)
+				if name is not None and name.lower() not in ("infd","inff"):
+					# a negated property (or function), not a literal
+					return None
 			num=self.ParseNumericLiteral()
 			if num is None:
 				# must be something like "." or "-" on its own, not a literal
-- 
2.43.0


From 628e834c8b65bc972f29f3a9d8e3dcb21f64463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 136/305] fix: a path that merely starts with the service
 prefix was treated as inside it

---
 pyslet/pyslet/odata2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 4953b2b..d8f1753 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1859,6 +1859,9 @@ class ODataURI:
 		if pathPrefix and not dsURI.absPath.startswith(pathPrefix):
 			# this is not a URI we own
 			return
+		elif dsURI.absPath[len(pathPrefix):len(pathPrefix)+1] not in ('','/'):
+			# nor is this, though it starts with the same characters
+			return
 		#
 		#	Unpack the query
 		if dsURI.query is not None:
-- 
2.43.0


From 08c89b6aff1278e4e807528df4fd94d04a6c13d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 137/305] fix: a system query option without a value raised an
 untranslated error

---
 pyslet/pyslet/odata2/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index d8f1753..f898136 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1868,6 +1868,8 @@ class ODataURI:
 			rawOptions=dsURI.query.split('&')
 			for paramDef in rawOptions:
 				if paramDef.startswith('$'):
+					if '=' not in paramDef:
+						raise InvalidSystemQueryOption(paramDef)
 					paramName=uri.UnescapeData(paramDef[1:paramDef.index('=')]).decode('utf-8')
 					param,paramValue=self.ParseSystemQueryOption(paramName,
 						uri.UnescapeData(paramDef[paramDef.index('=')+1:]).decode('utf-8'))
-- 
2.43.0


From 8cf34c8fde8016a9b13a65046e7d0efa4b9b8807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 138/305] fix: unknown and misplaced path options were not
 reported as bad requests

---
 pyslet/pyslet/odata2/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index f898136..99f39cb 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1899,13 +1899,13 @@ class ODataURI:
 				elif segment.startswith("$"):
 					try:
 						pathOption=PathOption.DecodeLowerValue(segment[1:])
-					except KeyError:
+					except ValueError:
 						raise InvalidPathOption(segment)
 					if self.pathOption is not None:
 						raise InvalidPathOption("%s must not be used with $%s"%(segment,PathOption.EncodeValue(self.pathOption)))
-					if self.navPath and self.pathOption in (PathOption.batch,PathOption.metadata):
-						raise InvalidPathOption("$%s must be the only path segment"%PathOption.EncodeValue(self.pathOption))						
-					elif self.pathOption==PathOption.links:
+					if self.navPath and pathOption in (PathOption.batch,PathOption.metadata):
+						raise InvalidPathOption("$%s must be the only path segment"%PathOption.EncodeValue(pathOption))						
+					elif pathOption==PathOption.links:
 						if not self.navPath:
 							raise InvalidPathOption("resource path must not start with $links")
 					self.pathOption=pathOption
-- 
2.43.0


From 52ed8b35f86b3570edef2208c005e84a61aeb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 139/305] fix: key predicates containing /, =, comma or escapes
 could not be parsed

---
 pyslet/pyslet/odata2/core.py | 68 ++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 99f39cb..1f43701 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -12,7 +12,7 @@ import pyslet.rfc5023 as app
 import pyslet.iso8601 as iso
 import csdl as edm
 
-import string, itertools, json, base64, decimal, uuid, math
+import string, re, itertools, json, base64, decimal, uuid, math
 from types import *
 
 ODATA_METADATA_NAMESPACE="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"	#: namespace for metadata, e.g., the property type attribute
@@ -1885,7 +1885,7 @@ class ODataURI:
 		if self.resourcePath=='/':
 			self.navPath=[]
 		else:
-			segments=self.resourcePath.split('/')
+			segments=self.SplitPath(self.resourcePath)
 			self.navPath=[]
 			for segment in segments[1:]:
 				if self.pathOption==PathOption.links:
@@ -1987,35 +1987,57 @@ class ODataURI:
 			if p not in rules:
 				raise InvalidSystemQueryOption('$%s cannot be used with this form of URI'%SystemQueryOption.EncodeValue(p))
 		
+	@staticmethod
+	def SplitPath(path):
+		"""Splits a path into segments at each '/' that does not appear
+		in the (quoted) value of a key predicate."""
+		segments=[]
+		segment=[]
+		bracket=quoted=False
+		for part in re.split("([/('])|(%2[78])",path):
+			if part is None or part=='':
+				continue
+			elif part=="/" and not quoted:
+				segments.append(string.join(segment,''))
+				segment=[]
+				bracket=False
+				continue
+			elif part in ("(","%28"):
+				bracket=True
+			elif part in ("'","%27") and bracket:
+				quoted=not quoted
+			segment.append(part)
+		segments.append(string.join(segment,''))
+		return segments
+	
 	def SplitSegment(self,segment):
 		"""Splits a string segment into a unicode name and a keyPredicate dictionary."""
 		if segment.startswith('$'):
 			# some type of control word
 			return segment,None
-		elif '(' in segment and segment[-1]==')':
-			name=uri.UnescapeData(segment[:segment.index('(')]).decode('utf-8')
-			keys=segment[segment.index('(')+1:-1]
+		segment=uri.UnescapeData(segment).decode('utf-8')
+		if '(' in segment and segment[-1]==')':
+			name,keys=segment[:-1].split('(',1)
+			keyPredicate={}
 			if keys=='':
-				keys=[]
-			else:
-				keys=keys.split(',')
-			if len(keys)==0:
-				return name,{}
-			elif len(keys)==1 and '=' not in keys[0]:
-				return name,{u'':ParseURILiteral(keys[0])}
-			else:
-				keyPredicate={}
-				for k in keys:
-					nv=k.split('=')
-					if len(nv)!=2:
-						raise ValueError("unrecognized key predicate: %s"%repr(keys))
-					kname,value=nv
-					kname=uri.UnescapeData(kname).decode('utf-8')
-					kvalue=ParseURILiteral(value)
-					keyPredicate[kname]=kvalue
 				return name,keyPredicate
+			p=Parser(keys)
+			value=p.ParseURILiteral()
+			if value is not None:
+				keyPredicate[u'']=p.RequireProductionEnd(value,"key predicate")
+			else:
+				while True:
+					kname=p.RequireProduction(p.ParseSimpleIdentifier(),"key property name")
+					p.Require("=","key predicate")
+					if kname in keyPredicate:
+						raise ValueError("duplicate property in key predicate: %s"%repr(keys))
+					keyPredicate[kname]=p.RequireProduction(p.ParseURILiteral(),"key value")
+					if not p.Parse(","):
+						break
+				p.RequireEnd("key predicate")
+			return name,keyPredicate
 		else:
-			return uri.UnescapeData(segment).decode('utf-8'),None
+			return segment,None
 	
 	def GetParamValue(self,paramName):
 		if paramName in self.paramTable:
-- 
2.43.0


From bbab1a73b0aac59826fc51c0ee17ccede20a50b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 140/305] fix: escaped query parameter literals were parsed
 without decoding them

---
 pyslet/pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 1f43701..b9a8cee 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2043,7 +2043,7 @@ class ODataURI:
 		if paramName in self.paramTable:
 			paramDef=self.queryOptions[self.paramTable[paramName]]
 			# must be a primitive type
-			return ParseURILiteral(paramDef[paramDef.index('=')+1:])
+			return ParseURILiteral(uri.UnescapeData(paramDef[paramDef.index('=')+1:]).decode('utf-8'))
 		else:
 			raise KeyError("Missing service operation, or custom parameter: %s"%paramName)
 	
-- 
2.43.0


From c0f21fcbd639e29b7cf3d32cc2b3719941b3ce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 141/305] fix: reserved characters in decoded WSGI paths were
 reinterpreted

---
 pyslet/pyslet/odata2/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index b49e765..d348c63 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -188,7 +188,8 @@ class Server(app.Server):
 			if version is None:
 				return self.ODataError(ODataURI('error'),environ,start_response,"DataServiceVersionMismatch","Maximum supported protocol version: 2.0")
 			appPath=environ.get('SCRIPT_NAME',"")
-			path=appPath+environ['PATH_INFO']
+			# WSGI paths are already decoded, put the escaping back
+			path=uri.EscapeData(appPath+environ['PATH_INFO'],lambda c:c=='?')
 			query=environ.get('QUERY_STRING',None)
 			if query is not None:
 				path=path+'?'+query
-- 
2.43.0


From 4286bd69fe4ff64322671b071592448006c34eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 142/305] fix: next page links lost the top and inlinecount
 options

---
 pyslet/pyslet/odata2/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index b9a8cee..933189f 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2469,6 +2469,11 @@ class EntityCollection(edm.EntityCollection):
 				sysQueryOptions[SystemQueryOption.select]=FormatSelect(self.select)
 			if self.orderby is not None:
 				sysQueryOptions[SystemQueryOption.orderby]=CommonExpression.OrderByToString(self.orderby)
+			if self.top is not None and self.topmax is not None:
+				# the remaining number of entities
+				sysQueryOptions[SystemQueryOption.top]=unicode(self.top-self.topmax)
+			if self.inlineCount:
+				sysQueryOptions[SystemQueryOption.inlinecount]=u"allpages"
 			sysQueryOptions[SystemQueryOption.skiptoken]=unicode(token)
 			return uri.URIFactory.URI(str(baseURL)+"?"+ODataURI.FormatSysQueryOptions(sysQueryOptions))
 		else:
-- 
2.43.0


From a4a8bf34a4db6ae53600a1aa82563c243cb5e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 143/305] fix: an entity deleted through Entity.Delete still
 claimed to exist

---
 pyslet/pyslet/odata2/csdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index a486c55..a99d317 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -2150,6 +2150,7 @@ class Entity(TypeInstance):
 		flag is set to False after deletion."""
 		with self.entitySet.OpenCollection() as collection:
 			del collection[self.Key()]
+			self.exists=False
 			
 	def Key(self):
 		"""Returns the entity key as a single python value or a tuple of
-- 
2.43.0


From a896e33052c3f077de355e31ab98277f29d1430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 144/305] fix: concurrency tokens of DateTime types could not
 be generated

---
 pyslet/pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index a99d317..2ebd1ca 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -2363,13 +2363,13 @@ class Entity(TypeInstance):
 					t.SetFromValue(t.value+1)
 				else:
 					t.SetFromValue(1)
-			elif isinstance(t,(DateTimeValue,DateTimeOffset)):
+			elif isinstance(t,(DateTimeValue,DateTimeOffsetValue)):
 				oldT=t.value
 				t.SetFromValue(iso8601.TimePoint.FromNowUTC())
 				if t.value==oldT:
 					# that was quick, push it 1s into the future
 					newTime,overflow=t.value.time.Offset(seconds=1)
-					t.SetFromValue(date=t.value.date.Offset(days=overflow),time=newTime)
+					t.SetFromValue(iso8601.TimePoint(date=t.value.date.Offset(days=overflow),time=newTime))
 			elif isinstance(t,GuidValue):
 				oldT=t.value
 				while t.value==oldT:
-- 
2.43.0


From b00b361ed2cfa2db4fcbfaac16244f293454442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 145/305] fix: the last page of a collection claimed there was
 another page

---
 pyslet/pyslet/odata2/csdl.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 2ebd1ca..962233d 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -2821,17 +2821,18 @@ class EntityCollection(DictionaryLike):
 		Data providers should override this implementation for a more
 		efficient implementation.  The default implementation simply
 		wraps :py:meth:`itervalues`."""
+		self.nextSkiptoken=None
 		if self.top==0:
 			# end of paging
 			return
 		i=0
-		self.nextSkiptoken=None
+		nextSkiptoken=None
 		try:
 			eMin=int(self.skiptoken,16)
 		except (TypeError,ValueError):
 			# not a skip token we recognise, do nothing
 			eMin=None
-		if eMin is None:
+		if eMin is None or eMin<0:
 			eMin=0
 		if self.skip is not None:
 			eMin=self.skip+eMin
@@ -2839,7 +2840,7 @@ class EntityCollection(DictionaryLike):
 			if self.top is None or self.top>self.topmax:
 				# may be truncated
 				eMax=eMin+self.topmax
-				self.nextSkiptoken="%X"%(eMin+self.topmax)
+				nextSkiptoken="%X"%(eMin+self.topmax)
 			else:
 				# top not None and <= topmax
 				eMax=eMin+self.top
@@ -2867,6 +2868,7 @@ class EntityCollection(DictionaryLike):
 						i=i+1
 					else:
 						# stop the iteration now
+						self.nextSkiptoken=nextSkiptoken
 						if setNextPage:
 							# set the next skiptoken
 							if self.nextSkiptoken is None:
-- 
2.43.0


From f0005ec2420bcec2db4fc7e2bd68ba783a85c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 146/305] fix: filters and orderings did not see properties
 that were not selected

---
 pyslet/pyslet/odata2/csdl.py  |  4 ++--
 pyslet/pyslet/odata2/memds.py | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 962233d..de7bc9f 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3035,8 +3035,8 @@ class ExpandedEntityCollection(NavigationCollection):
 			self.entityDict[e.Key()]=e
 			
 	def itervalues(self):
-		return self.OrderEntities(
-			self.ExpandEntities(
+		return self.ExpandEntities(
+			self.OrderEntities(
 			self.FilterEntities(
 			self.entityList)))
 	
diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 304bab0..bf92163 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -422,13 +422,15 @@ class EntityCollection(odata.EntityCollection):
 			return result
 		
 	def itervalues(self):
-		return self.OrderEntities(
-			self.ExpandEntities(
+		# filters and orderings may refer to properties that are not
+		# selected so the select option is applied last
+		return self.ExpandEntities(
+			self.OrderEntities(
 			self.FilterEntities(
-			self.entityStore.GenerateEntities(self.select))))
+			self.entityStore.GenerateEntities())))
 		
 	def __getitem__(self,key):
-		e=self.entityStore.ReadEntity(key,self.select)
+		e=self.entityStore.ReadEntity(key)
 		if e is not None and self.CheckFilter(e):
 			e.Expand(self.expand,self.select)
 			return e
@@ -535,8 +537,8 @@ class NavigationCollection(odata.NavigationCollection):
 			yield self.collection[k]
 		
 	def itervalues(self):
-		return self.OrderEntities(
-			self.ExpandEntities(
+		return self.ExpandEntities(
+			self.OrderEntities(
 			self.FilterEntities(
 			self.entityGenerator())))
 
-- 
2.43.0


From 4f4f8a1703f6f575a8ede9aa98d275d219f929fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 147/305] fix: misspelt NotImplementedError

---
 pyslet/pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index de7bc9f..2910519 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3062,7 +3062,7 @@ class FunctionEntityCollection(EntityCollection):
 
 	def Expand(self,expand,select=None):
 		"""This option is not supported on function results"""
-		raise NotImplmentedError("Expand/Select option on Function result")
+		raise NotImplementedError("Expand/Select option on Function result")
 
 	def __setitem__(self,key,value):
 		raise NotImplementedError("Function %s is read-only"%self.function.name) 
-- 
2.43.0


From 17e92bdc65ae77a795fd7f53ff51193566bede3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 148/305] fix: entities inserted with unselected properties
 were stored misaligned

---
 pyslet/pyslet/odata2/memds.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index bf92163..5bf5e62 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -62,9 +62,12 @@ class InMemoryEntityStore(object):
 		key=e.Key()
 		value=[]
 		for pName in e.DataKeys():
-			if not e.Selected(pName):
-				continue
-			p=e[pName]
+			if e.Selected(pName) or pName in self.entitySet.keys:
+				p=e[pName]
+			else:
+				# each entity is stored with all its properties,
+				# unselected properties get their default value
+				p=e.typeDef[pName]()
 			if isinstance(p,edm.Complex):
 				value.append(self.GetTupleFromComplex(p))
 			elif isinstance(p,edm.SimpleValue):
-- 
2.43.0


From cf121aa773e51885efe9b54930c935208af61f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 149/305] fix: deleting an entity whose association set has no
 navigation property failed

---
 pyslet/pyslet/odata2/memds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 5bf5e62..fb522d6 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -482,6 +482,9 @@ class EntityCollection(odata.EntityCollection):
 								del toCollection[toKey]
 					else:
 						associationIndex=self.entityStore.reverseAssociations.get(linkEnd.parent.name,None)
+						if associationIndex is None:
+							# no navigation in either direction, so no links
+							continue
 						with associationIndex.fromEntityStore.entitySet.OpenCollection() as fromCollection:
 							for fromKey in associationIndex.GetLinksTo(key):
 								if navName is None and not associationIndex.fromEntityStore.DeletingEntity(fromKey):
-- 
2.43.0


From 25781361b65ad1578b6b2539e8f115b2b373db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 150/305] fix: looking up a navigation collection by key
 ignored its filter and expand options

---
 pyslet/pyslet/odata2/memds.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index fb522d6..691e181 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -552,10 +552,9 @@ class NavigationCollection(odata.NavigationCollection):
 		resultSet=self.lookupMethod(self.key)
 		if key in resultSet:
 			result=self.collection[key]
-			if self.filter is None:
-				if self.CheckFilter(result):
-					return result
-			else:
+			if self.CheckFilter(result):
+				if self.expand or self.select:
+					result.Expand(self.expand,self.select)
 				return result
 		raise KeyError(key)
 		
-- 
2.43.0


From bc375553533c4e0ebed8cf17c71b54bdbe483b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 151/305] fix: an entity deleted during iteration of a
 navigation collection raised KeyError

---
 pyslet/pyslet/odata2/memds.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 691e181..1652f1d 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -540,7 +540,12 @@ class NavigationCollection(odata.NavigationCollection):
 		# we create a collection from the appropriate entity set first
 		resultSet=self.lookupMethod(self.key)
 		for k in resultSet:
-			yield self.collection[k]
+			try:
+				e=self.collection[k]
+			except KeyError:
+				# deleted since we looked up the links
+				continue
+			yield e
 		
 	def itervalues(self):
 		return self.ExpandEntities(
-- 
2.43.0


From f299152078c22b23d28daa1caa024b1c073096cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 152/305] fix: failed or concurrent changes to an in-memory
 container left half of the change behind

---
 pyslet/pyslet/odata2/memds.py | 258 ++++++++++++++++++++++------------
 1 file changed, 169 insertions(+), 89 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 1652f1d..34ff306 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -73,10 +73,24 @@ class InMemoryEntityStore(object):
 			elif isinstance(p,edm.SimpleValue):
 				value.append(p.value)
 		with self.container.lock:
+			self.container.Undo(self._Restore,key,self.data.get(key,None),self.streams.get(key,None),e,e.exists)
 			self.data[key]=tuple(value)
 			# At this point the entity exists
 			e.exists=True
 
+	def _Restore(self,key,value,stream,e=None,exists=False):
+		# undoes a change to the entity with key
+		if value is None:
+			self.data.pop(key,None)
+		else:
+			self.data[key]=value
+		if stream is None:
+			self.streams.pop(key,None)
+		else:
+			self.streams[key]=stream
+		if e is not None:
+			e.exists=exists
+
 	def CountEntities(self):
 		with self.container.lock:
 			return len(self.data)
@@ -155,10 +169,14 @@ class InMemoryEntityStore(object):
 					elif isinstance(p,edm.SimpleValue):
 						value[i]=p.value
 				i=i+1
+			self.container.Undo(self._Restore,key,self.data[key],self.streams.get(key,None))
 			self.data[key]=tuple(value)
 
 	def UpdateEntityStream(self,key,streamType,stream):
 		with self.container.lock:
+			if key not in self.data:
+				raise KeyError(key)
+			self.container.Undo(self._Restore,key,self.data[key],self.streams.get(key,None))
 			self.streams[key]=(streamType,stream)
 
 	def GetTupleFromComplex(self,complexValue):
@@ -207,6 +225,7 @@ class InMemoryEntityStore(object):
 				associationIndex.DeleteHook(key)
 			for associationIndex in self.reverseAssociations.values():
 				associationIndex.ReverseDeleteHook(key)
+			self.container.Undo(self._Restore,key,self.data[key],self.streams.get(key,None))
 			del self.data[key]
 			if key in self.streams:
 				del self.streams[key]
@@ -275,6 +294,8 @@ class InMemoryAssociationIndex(object):
 	def AddLink(self,fromKey,toKey):
 		"""Adds a link from *fromKey* to *toKey*"""
 		with self.container.lock:
+			if toKey not in self.index.get(fromKey,()):
+				self.container.Undo(self.RemoveLink,fromKey,toKey)
 			self.index.setdefault(fromKey,set()).add(toKey)
 			self.reverseIndex.setdefault(toKey,set()).add(fromKey)
 
@@ -291,34 +312,23 @@ class InMemoryAssociationIndex(object):
 	def RemoveLink(self,fromKey,toKey):
 		"""Removes a link from *fromKey* to *toKey*"""
 		with self.container.lock:
-			self.index.get(fromKey,set()).discard(toKey)
-			self.reverseIndex.get(toKey,set()).discard(fromKey)
+			if toKey in self.index.get(fromKey,()):
+				self.container.Undo(self.AddLink,fromKey,toKey)
+			for index,key,value in ((self.index,fromKey,toKey),(self.reverseIndex,toKey,fromKey)):
+				if key in index:
+					index[key].discard(value)
+					if not index[key]:
+						del index[key]
 		
 	def DeleteHook(self,fromKey):
 		"""Called only by :py:meth:`InMemoryEntityStore.DeleteEntity`"""
-		try:
-			toKeys=self.index[fromKey]
-			for toKey in toKeys:
-				fromKeys=self.reverseIndex[toKey]
-				fromKeys.remove(fromKey)
-				if len(fromKeys)==0:
-					del self.reverseIndex[toKey]
-			del self.index[fromKey]			
-		except KeyError:
-			pass
+		for toKey in self.GetLinksFrom(fromKey):
+			self.RemoveLink(fromKey,toKey)
 
 	def ReverseDeleteHook(self,toKey):
 		"""Called only by :py:meth:`InMemoryEntityStore.DeleteEntity`"""
-		try:
-			fromKeys=self.reverseIndex[toKey]
-			for fromKey in fromKeys:
-				toKeys=self.index[fromKey]
-				toKeys.remove(toKey)
-				if len(toKeys)==0:
-					del self.index[fromKey]
-			del self.reverseIndex[toKey]			
-		except KeyError:
-			pass
+		for fromKey in self.GetLinksTo(toKey):
+			self.RemoveLink(fromKey,toKey)
 
 
 class Entity(odata.Entity):
@@ -367,7 +377,7 @@ class Entity(odata.Entity):
 			etag.SetFromValue(h.digest())
 		if h is not None:
 			# we need the lock to ensure the stream and etag are updated together
-			with self.entityStore.container.lock:
+			with self.entityStore.container.Transaction():
 				self.entityStore.UpdateEntityStream(key,streamType,data)
 				self.Update()
 		else:
@@ -399,16 +409,16 @@ class EntityCollection(odata.EntityCollection):
 		suppress a constraint check (on the assumption that it has
 		already been checked) by passing *fromEnd* directly to
 		:py:meth:`Entity.CheckNavigationConstraints`."""
-		try:
-			key=entity.Key()
-		except KeyError:
-			# if the entity doesn't have a key, autogenerate one
-			key=self.entityStore.NextKey()
-			entity.SetKey(key)
-		with self.entityStore.container.lock:
+		with self.entityStore.container.Transaction():
 			# This is a bit clumsy, but we lock the whole container while we
 			# check all constraints and perform any nested deletes 
-			if key in self:
+			try:
+				key=entity.Key()
+			except KeyError:
+				# if the entity doesn't have a key, autogenerate one
+				key=self.entityStore.NextKey()
+				entity.SetKey(key)
+			if key in self.entityStore.data:
 				raise edm.ConstraintError("%s already exists"%odata.ODataURI.FormatEntityKey(entity))
 			# Check constraints
 			entity.CheckNavigationConstraints(fromEnd)
@@ -443,7 +453,7 @@ class EntityCollection(odata.EntityCollection):
 	def UpdateEntity(self,entity):
 		# force an error if we don't have a key
 		key=entity.Key()
-		with self.entityStore.container.lock:
+		with self.entityStore.container.Transaction():
 			self.entityStore.UpdateEntity(entity)
 			# now process any bindings
 			self.UpdateBindings(entity)
@@ -452,6 +462,10 @@ class EntityCollection(odata.EntityCollection):
 		"""We do a cascade delete of everything that *must* be linked to
 		us. We don't need to bother about deleting links because the
 		delete hooks on entityStore do this automatically."""
+		with self.entityStore.container.Transaction():
+			self._DeleteEntity(key)
+	
+	def _DeleteEntity(self,key):
 		if not self.entityStore.StartDeletingEntity(key):
 			# we're already being deleted so do nothing
 			return
@@ -522,9 +536,10 @@ class NavigationCollection(odata.NavigationCollection):
 	def InsertEntity(self,entity):
 		"""Inserts a new *entity* into the target entity set *and*
 		simultaneously creates a link to it from the source entity."""
-		with self.entitySet.OpenCollection() as baseCollection:
-			baseCollection.InsertEntity(entity,fromEnd=self.fromEnd.otherEnd)
-			self[entity.Key()]=entity
+		with self.associationIndex.container.Transaction():
+			with self.entitySet.OpenCollection() as baseCollection:
+				baseCollection.InsertEntity(entity,fromEnd=self.fromEnd.otherEnd)
+				self[entity.Key()]=entity
 
 	def __len__(self):
 		if self.filter is None:
@@ -564,71 +579,122 @@ class NavigationCollection(odata.NavigationCollection):
 		raise KeyError(key)
 		
 	def __setitem__(self,key,value):
-		resultSet=self.lookupMethod(self.key)
-		if key in resultSet:
-			# no operation
-			return
-		# forces a check of value to ensure it is good
-		self.collection[key]=value
-		if self.toMultiplicity!=edm.Multiplicity.Many:
-			#	if not self.fromEntity.IsEntityCollection(self.name):
-			#	Should be an error if we already have a link
-			if resultSet:
-				raise edm.NavigationConstraintError("Can't add multiple links to navigation property %s"%self.name)
+		with self.associationIndex.container.Transaction():
+			self.CheckSource()
+			# forces a check of value to ensure it is good
+			self.collection[key]=value
+			resultSet=self.lookupMethod(self.key)
+			if key in resultSet:
+				# no operation
+				return
+			if self.toMultiplicity!=edm.Multiplicity.Many:
+				#	if not self.fromEntity.IsEntityCollection(self.name):
+				#	Should be an error if we already have a link
+				if resultSet:
+					raise edm.NavigationConstraintError("Can't add multiple links to navigation property %s"%self.name)
+			self.CheckTarget(key,value)
+			# clear to add this one to the index
+			if self.reverse:
+				self.associationIndex.AddLink(key,self.key)
+			else:
+				self.associationIndex.AddLink(self.key,key)
+	
+	def CheckSource(self):
+		"""Checks that the entity we are navigating from still exists."""
+		if self.reverse:
+			store=self.associationIndex.toEntityStore
+		else:
+			store=self.associationIndex.fromEntityStore
+		if self.key not in store.data:
+			raise edm.NonExistentEntity("Attempt to navigate a non-existent entity: %s.%s"%(self.fromEntity.entitySet.name,self.name))
+
+	def CheckTarget(self,key,value):
+		"""Checks that the entity with *key* can accept another link."""
 		if self.fromMultiplicity!=edm.Multiplicity.Many:
 			if self.rLookupMethod(key):
 				raise edm.NavigationConstraintError("Entity %s is already bound through this association"%value.GetLocation())				
-		# clear to add this one to the index
-		if self.reverse:
-			self.associationIndex.AddLink(key,self.key)
-		else:
-			self.associationIndex.AddLink(self.key,key)
-	
+
 	def __delitem__(self,key):
-		#	Before we remove a link we need to know if either entity
-		#	requires a link, if so, this deletion will result in a
-		#	constraint violation
-		if self.fromMultiplicity==edm.Multiplicity.One or self.toMultiplicity==edm.Multiplicity.One:
-			raise edm.NavigationConstraintError("Can't remove a required link")
-		resultSet=self.lookupMethod(self.key)
-		if key not in resultSet:
-			raise KeyError
-		if self.reverse:
-			self.associationIndex.RemoveLink(key,self.key)
-		else:
-			self.associationIndex.RemoveLink(self.key,key)
+		with self.associationIndex.container.Transaction():
+			#	Before we remove a link we need to know if either entity
+			#	requires a link, if so, this deletion will result in a
+			#	constraint violation
+			if self.fromMultiplicity==edm.Multiplicity.One or self.toMultiplicity==edm.Multiplicity.One:
+				raise edm.NavigationConstraintError("Can't remove a required link")
+			resultSet=self.lookupMethod(self.key)
+			if key not in resultSet:
+				raise KeyError(key)
+			if self.reverse:
+				self.associationIndex.RemoveLink(key,self.key)
+			else:
+				self.associationIndex.RemoveLink(self.key,key)
 
 	def Replace(self,entity):
 		key=entity.Key()
-		resultSet=list(self.lookupMethod(self.key))
-		if resultSet==[key]:
-			# nothing to do!
-			return
-		if self.fromMultiplicity==edm.Multiplicity.One:
-			if resultSet:
-				# we can't delete these links because we are required
-				raise edm.NavigationConstraintError("Can't remove a required link")
-			else:
-				self[key]=entity
-		else:
-			# add the new link first
-			if key not in resultSet:
-				if self.reverse:
-					self.associationIndex.AddLink(key,self.key)
+		with self.associationIndex.container.Transaction():
+			self.CheckSource()
+			# forces a check of entity to ensure it is good
+			self.collection[key]=entity
+			resultSet=list(self.lookupMethod(self.key))
+			if resultSet==[key]:
+				# nothing to do!
+				return
+			if self.fromMultiplicity==edm.Multiplicity.One:
+				if resultSet:
+					# we can't delete these links because we are required
+					raise edm.NavigationConstraintError("Can't remove a required link")
 				else:
-					self.associationIndex.AddLink(self.key,key)
-			for oldKey in resultSet:
-				# now remove all the old keys.  This implementation
-				# is the same regardless of the allowed multiplicity.
-				# This doesn't just save coding, it ensures that
-				# corrupted indexes are self-correcting
-				if oldKey!=key:
+					self[key]=entity
+			else:
+				# add the new link first
+				if key not in resultSet:
+					self.CheckTarget(key,entity)
 					if self.reverse:
-						self.associationIndex.RemoveLink(oldKey,self.key)
+						self.associationIndex.AddLink(key,self.key)
 					else:
-						self.associationIndex.RemoveLink(self.key,oldKey)
+						self.associationIndex.AddLink(self.key,key)
+				for oldKey in resultSet:
+					# now remove all the old keys.  This implementation
+					# is the same regardless of the allowed multiplicity.
+					# This doesn't just save coding, it ensures that
+					# corrupted indexes are self-correcting
+					if oldKey!=key:
+						if self.reverse:
+							self.associationIndex.RemoveLink(oldKey,self.key)
+						else:
+							self.associationIndex.RemoveLink(self.key,oldKey)
 		
 
+class Transaction(object):
+	"""A context manager that holds the container's lock and undoes all
+	the changes made by its block if the block raises an error.
+	
+	Transactions can be nested."""
+	
+	def __init__(self,container):
+		self.container=container
+	
+	def __enter__(self):
+		self.container.lock.acquire()
+		self.outer=self.container._undo is None
+		if self.outer:
+			self.container._undo=[]
+		self.mark=len(self.container._undo)
+	
+	def __exit__(self,type,value,tb):
+		try:
+			if type is not None:
+				actions=self.container._undo[self.mark:]
+				del self.container._undo[self.mark:]
+				for method,args in reversed(actions):
+					method(*args)
+				del self.container._undo[self.mark:]
+		finally:
+			if self.outer:
+				self.container._undo=None
+			self.container.lock.release()
+
+
 class InMemoryEntityContainer(object):
 	
 	def __init__(self,containerDef):
@@ -636,6 +702,7 @@ class InMemoryEntityContainer(object):
 		self.lock=threading.RLock()			#: a lock that must be acquired before modifying any entity or association in this container
 		self.entityStorage={}				#: a mapping from entity set names to :py:class:`InMemoryEntityStore` instances
 		self.associationStorage={}			#: a mapping from association set name to :py:class:`InMemoryAssociationIndex` instances
+		self._undo=None						# the actions that would undo the transaction in progress
 		# for each entity set in this container, bind some storage
 		for es in self.containerDef.EntitySet:
 			self.entityStorage[es.name]=InMemoryEntityStore(self,es)
@@ -656,4 +723,17 @@ class InMemoryEntityContainer(object):
 					if target is None:
 						raise edm.ModelIncomplete("Target of navigation property %s.%s is not bound to an entity set"%(es.name,np.name))
 					toStorage=self.entityStorage[target.name]
-					self.associationStorage[associationSet.name]=InMemoryAssociationIndex(self,associationSet,fromStorage,toStorage,np.name)
\ No newline at end of file
+					self.associationStorage[associationSet.name]=InMemoryAssociationIndex(self,associationSet,fromStorage,toStorage,np.name)
+
+	def Transaction(self):
+		"""Returns a context manager for a set of changes that must all
+		succeed or fail together."""
+		return Transaction(self)
+	
+	def Undo(self,method,*args):
+		"""Records how to undo a change made by the current transaction
+		(if any).
+		
+		Must only be called if you have acquired the container lock."""
+		if self._undo is not None:
+			self._undo.append((method,args))
-- 
2.43.0


From 220958818479888951e4f8da196fb21d18290acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 153/305] fix: JSON ticks were converted through floating point
 and lost precision

---
 pyslet/pyslet/odata2/core.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 933189f..68f6362 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2395,6 +2395,24 @@ def EntityPropertyValueInJSON(v):
 	else:
 		raise ValueError("SimpleValue: %s"%repr(v))
 		
+def TicksToTimePoint(ticks):
+	"""Returns the time point *ticks* milliseconds after 1970-01-01"""
+	day,ticks=divmod(ticks,TICKS_PER_DAY)
+	# integer arithmetic for everything but the seconds
+	ticks=int(ticks)
+	hour,ticks=divmod(ticks,3600000)
+	minute,ticks=divmod(ticks,60000)
+	if ticks%1000:
+		second=ticks/1000.0
+	else:
+		second=ticks//1000
+	try:
+		return iso.TimePoint(date=iso.Date(absoluteDay=int(BASE_DAY+day)),
+			time=iso.Time(hour=hour,minute=minute,second=second))
+	except iso.DateTimeError,e:
+		raise ValueError(str(e))
+
+
 def ReadEntityPropertyValueInJSON(v,jsonValue):
 	"""Given a simple property value parsed from a json representation,
 	*jsonValue* and a :py:class:`SimpleValue` instance, *v*, update *v*
@@ -2407,10 +2425,7 @@ def ReadEntityPropertyValueInJSON(v,jsonValue):
 		v.SetFromValue(jsonValue)
 	elif isinstance(v,edm.DateTimeValue):
 		if jsonValue.startswith("/Date(") and jsonValue.endswith(")/"):
-			day,ticks=divmod(int(jsonValue[6:-2]),TICKS_PER_DAY)
-			t,overflow=iso.Time().Offset(seconds=ticks/1000.0)
-			d=iso.Date(absoluteDay=BASE_DAY+day+overflow)
-			v.SetFromValue(iso.TimePoint(date=d,time=t))
+			v.SetFromValue(TicksToTimePoint(int(jsonValue[6:-2])))
 		else:
 			raise ValueError("Illegal value for DateTime: %s"%jsonValue)		
 	elif isinstance(v,(edm.DecimalValue,edm.DoubleValue,edm.GuidValue,edm.Int64Value,edm.SingleValue,edm.StringValue,edm.TimeValue)):
@@ -2434,11 +2449,7 @@ def ReadEntityPropertyValueInJSON(v,jsonValue):
 			zOffset=int(zOffset)
 			if zOffset==0:
 				zDir=0
-			day,ticks=divmod(int(ticks),TICKS_PER_DAY)
-			t,overflow=iso.Time().Offset(seconds=ticks/1000.0)
-			t=t.WithZone(zDir,zOffset//60,zOffset%60)
-			d=iso.Date(absoluteDay=BASE_DAY+day+overflow)
-			v.SetFromValue(iso.TimePoint(date=d,time=t))
+			v.SetFromValue(TicksToTimePoint(int(ticks)).WithZone(zDir,zOffset//60,zOffset%60))
 		else:
 			raise ValueError("Illegal value for DateTimeOffset: %s"%jsonValue)			
 	else:
-- 
2.43.0


From 1e11689dd2c4b67277872e4ec499a88c57c27eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 154/305] fix: JSON values of the wrong type were not rejected
 cleanly

---
 pyslet/pyslet/odata2/core.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 68f6362..f724663 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2111,6 +2111,8 @@ class Entity(edm.Entity):
 	def SetFromJSONObject(self,obj,entityResolver=None,forUpdate=False):
 		"""Sets the value of this entity from a dictionary parsed from a
 		JSON representation."""
+		if type(obj) is not DictType:
+			raise InvalidData("Expected JSON object for entity: %s"%repr(obj)[:256])
 		for k,v in self.DataItems():
 			if k in obj:
 				if isinstance(v,edm.SimpleValue):
@@ -2320,6 +2322,8 @@ def EntityCTInJSON(complexValue):
 	return '{%s}'%EntityCTBody(complexValue)
 
 def ReadEntityCTInJSON(complexValue,obj):
+	if type(obj) is not DictType:
+		raise ValueError("Expected JSON object: %s"%repr(obj)[:256])
 	if complexValue.pDef.name in obj:
 		ReadEntityCTValue(complexValue,obj[complexValue.pDef.name])
 	
@@ -2361,6 +2365,8 @@ def EntityPropertyInJSON1(simpleValue):
 	return '{%s}'%EntityPropertyInJSON(simpleValue)
 
 def ReadEntityPropertyInJSON1(simpleValue,obj):
+	if type(obj) is not DictType:
+		raise ValueError("Expected JSON object: %s"%repr(obj)[:256])
 	if simpleValue.pDef.name in obj:
 		ReadEntityPropertyValueInJSON(simpleValue,obj[simpleValue.pDef.name])
 		
@@ -2419,10 +2425,18 @@ def ReadEntityPropertyValueInJSON(v,jsonValue):
 	to reflect the parsed value."""
 	if jsonValue is None:
 		v.SetFromValue(None)
-	elif isinstance(v,edm.BinaryValue):
-		v.SetFromValue(base64.b64decode(jsonValue))
 	elif isinstance(v,(edm.BooleanValue,edm.ByteValue,edm.Int16Value,edm.Int32Value,edm.SByteValue)):
-		v.SetFromValue(jsonValue)
+		try:
+			v.SetFromValue(jsonValue)
+		except TypeError,e:
+			raise ValueError(str(e))
+	elif type(jsonValue) not in StringTypes:
+		raise ValueError("Expected string: %s"%repr(jsonValue))
+	elif isinstance(v,edm.BinaryValue):
+		try:
+			v.SetFromValue(base64.b64decode(jsonValue))
+		except TypeError,e:
+			raise ValueError("Illegal value for Binary: %s"%str(e))
 	elif isinstance(v,edm.DateTimeValue):
 		if jsonValue.startswith("/Date(") and jsonValue.endswith(")/"):
 			v.SetFromValue(TicksToTimePoint(int(jsonValue[6:-2])))
-- 
2.43.0


From 6f39f9ded55de31442c0ddc26da103802b16406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 155/305] fix: null complex values in OData entities were left
 unset

---
 pyslet/pyslet/odata2/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index f724663..ecafcc9 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2121,7 +2121,7 @@ class Entity(edm.Entity):
 					# assume a complex value then
 					ReadEntityCTValue(v,obj[k])
 			else:
-				v.SetFromValue(None)
+				v.SetNull()
 		if self.exists==False:
 			# we need to look for any link bindings
 			for navProperty in self.NavigationKeys():
@@ -2341,6 +2341,11 @@ def EntityCTValueToJSON(complexValue):
 	return "{%s}"%string.join(result,',')
 
 def ReadEntityCTValue(complexValue,obj):
+	if obj is None:
+		complexValue.SetNull()
+		return
+	elif type(obj) is not DictType:
+		raise ValueError("Expected JSON object for complex value: %s"%repr(obj)[:256])
 	for k,v in complexValue.iteritems():
 		if k in obj:
 			if isinstance(v,edm.SimpleValue):
@@ -3101,7 +3106,7 @@ class Entry(atom.Entry):
 					selected.add(k)
 				else:
 					# Property is not selected!
-					v.SetFromValue(None)
+					v.SetNull()
 					unselected.add(k)
 		# Now set this entity's select property...
 		if not unselected:
-- 
2.43.0


From 6f57954b946b2eabb43b7d7eef7be5b5529bfeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 156/305] fix: Atom media link entries had no content element

---
 pyslet/pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index ecafcc9..1ae4a31 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -3318,6 +3318,10 @@ class Entry(atom.Entry):
 						link.Expand(feed[0])
 		# Now set the new property values in the properties element
 		if mediaLinkResource:
+			if entity.exists and not forUpdate:
+				content=self.ChildElement(self.ContentClass)
+				content.type=str(entity.GetStreamType())
+				content.src=uri.URIFactory.URI(location+"/$value")
 			self.ChildElement(Properties)
 		else:
 			self.ChildElement(Content).ChildElement(Properties)
-- 
2.43.0


From 2894cacc68fa3481b6f56cf74f997ece1c7aca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 157/305] fix: the OData server did not support HEAD

---
 pyslet/pyslet/odata2/server.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index d348c63..54361b0 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -182,6 +182,16 @@ class Server(app.Server):
 		
 	def __call__(self,environ, start_response):
 		"""wsgi interface for the server."""
+		if environ["REQUEST_METHOD"].upper()=="HEAD":
+			# the response to the corresponding GET without the body
+			environ=environ.copy()
+			environ["REQUEST_METHOD"]="GET"
+			self.ProcessRequest(environ,start_response)
+			return []
+		else:
+			return self.ProcessRequest(environ,start_response)
+	
+	def ProcessRequest(self,environ,start_response):
 		responseHeaders=[]
 		try:
 			version=self.CheckCapabilityNegotiation(environ,start_response,responseHeaders)
-- 
2.43.0


From 67bc3cc25fdad2038bd10ea22909d9376d9d52e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 158/305] fix: an OData error message that is not plain text
 could not be returned

---
 pyslet/pyslet/odata2/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 54361b0..698fbfe 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -256,7 +256,8 @@ class Server(app.Server):
 		responseHeaders=[]
 		e=Error(None)
 		e.ChildElement(Code).SetValue(subCode)
-		e.ChildElement(Message).SetValue(message)
+		# the message may quote the request, remove anything that isn't allowed in XML
+		e.ChildElement(Message).SetValue(re.sub(u"[^\t\n\r -~]",u"?",message))
 		responseType=self.ContentNegotiation(request,environ,self.ErrorTypes)
 		if responseType is None:
 			# this is an error response, default to text/plain anyway
-- 
2.43.0


From 95127160a735be118f1828a55a3ed0507af55b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 159/305] fix: links in OData request bodies were not resolved
 or validated

---
 pyslet/pyslet/odata2/server.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 698fbfe..227ac4c 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -281,7 +281,7 @@ class Server(app.Server):
 		identify an enity set, entity, complex or simple value."""
 		if not href.IsAbsolute():
 			# resolve relative to the service root
-			href=URIFactory.Resolve(self.serviceRoot,href)
+			href=uri.URIFactory.Resolve(self.serviceRoot,href)
 		# check the canonical roots
 		if not self.serviceRoot.GetCanonicalRoot().Match(href.GetCanonicalRoot()):
 			# This isn't even for us
@@ -652,15 +652,17 @@ class Server(app.Server):
 		input=self.ReadXMLOrJSON(environ)
 		if isinstance(input,Document):
 			if isinstance(input.root,URI):
-				return self.GetResourceFromURI(uri.URIFactory.URI(input.root.GetValue()))
+				resource=self.GetResourceFromURI(uri.URIFactory.URI(input.root.GetValue()))
 			else:
-				raise InvalidData("Unable to parse link from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse link from request body")
 		else:
 			# must be a json object
-			try:
-				return self.GetResourceFromURI(uri.URIFactory.URI(input['uri']))
-			except KeyError:
-				raise InvalidData("Unable to parse link from JSON request body (found %s )"%str(input)[:256])
+			if not isinstance(input,DictType) or not isinstance(input.get('uri',None),StringTypes):
+				raise InvalidData("Unable to parse link from JSON request body (found %s )"%repr(input)[:256])
+			resource=self.GetResourceFromURI(uri.URIFactory.URI(input['uri']))
+		if not isinstance(resource,edm.Entity):
+			raise InvalidData("Link does not identify an entity")
+		return resource
 		
 	def ReturnLink(self,entity,request,environ,start_response,responseHeaders):
 		responseType=self.ContentNegotiation(request,environ,self.ValueTypes)
-- 
2.43.0


From a82c4f3d5d5cb54a7fc15a91e0b928c2cb94b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 160/305] fix: $count ignored $filter

---
 pyslet/pyslet/odata2/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 227ac4c..b51f889 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -406,6 +406,7 @@ class Server(app.Server):
 				if isinstance(resource,edm.Entity):
 					return self.ReturnCount(1,request,environ,start_response,responseHeaders)
 				elif isinstance(resource,edm.EntityCollection):
+					resource.Filter(request.sysQueryOptions.get(SystemQueryOption.filter,None))
 					return self.ReturnCount(len(resource),request,environ,start_response,responseHeaders)
 				else:
 					raise BadURISegment("$count must be applied to an EntitySet or single EntityType instance")
-- 
2.43.0


From 12635a547c8b1f6d10784b97a975add182976c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 161/305] fix: OData metadata, count and service root accepted
 modifying requests

---
 pyslet/pyslet/odata2/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index b51f889..c137b3b 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -399,10 +399,14 @@ class Server(app.Server):
 		try:
 			resource,parentEntity=self.GetResource(request)
 			if request.pathOption==PathOption.metadata:
+				if method!="GET":
+					raise InvalidMethod("%s not supported here"%method)
 				return self.ReturnMetadata(request,environ,start_response,responseHeaders)
 			elif request.pathOption==PathOption.batch:
 				return self.ODataError(request,environ,start_response,"Bad Request","Batch requests not supported",404)
 			elif request.pathOption==PathOption.count:
+				if method!="GET":
+					raise InvalidMethod("%s not supported here"%method)
 				if isinstance(resource,edm.Entity):
 					return self.ReturnCount(1,request,environ,start_response,responseHeaders)
 				elif isinstance(resource,edm.EntityCollection):
@@ -575,6 +579,8 @@ class Server(app.Server):
 				return self.ReturnCollection(resource,request,environ,start_response,responseHeaders)
 			else:	
 				# None or the DataService object: means we are trying to get the service root
+				if method!="GET":
+					raise InvalidMethod("%s not supported here"%method)
 				responseType=self.ContentNegotiation(request,environ,self.ServiceRootTypes)
 				if responseType is None:
 					return self.ODataError(request,environ,start_response,"Not Acceptable",'atomsvc+xml or json formats supported',406)
-- 
2.43.0


From e2baf52d767624e7e0968d25caf86ac9e6ae55ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 162/305] fix: $value requests on null and complex properties
 failed

---
 pyslet/pyslet/odata2/server.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index c137b3b..969127f 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -547,7 +547,9 @@ class Server(app.Server):
 			elif isinstance(resource,edm.EDMValue):
 				if method=="GET":
 					if request.pathOption==PathOption.value:
-						if resource:
+						if not isinstance(resource,edm.SimpleValue):
+							raise BadURISegment("$value cannot be used with %s"%resource.pDef.name)
+						elif resource:
 							return self.ReturnDereferencedValue(parentEntity,resource,request,environ,start_response,responseHeaders)
 						else:
 							raise MissingURISegment("%s (NULL)"%resource.pDef.name)
@@ -555,10 +557,9 @@ class Server(app.Server):
 						return self.ReturnValue(parentEntity,resource,request,environ,start_response,responseHeaders)
 				elif method=="PUT":
 					if request.pathOption==PathOption.value:
-						if resource:
-							self.ReadDereferencedValue(resource,environ)
-						else:
-							raise MissingURISegment("%s (NULL)"%resource.pDef.name)
+						if not isinstance(resource,edm.SimpleValue):
+							raise BadURISegment("$value cannot be used with %s"%resource.pDef.name)
+						self.ReadDereferencedValue(resource,environ)
 					else:
 						self.ReadValue(resource,environ)
 					parentEntity.Update()
@@ -568,7 +569,7 @@ class Server(app.Server):
 					if request.pathOption==PathOption.value:
 						raise BadURISegment("$value cannot be used with DELETE")
 					# make this one NULL, only if it is nullable
-					if resource.pDef and not resource.pDef.nullable:
+					if not isinstance(resource,edm.SimpleValue) or (resource.pDef and not resource.pDef.nullable):
 						raise InvalidMethod("DELETE failed, %s property is not nullable"%resource.pDef.name)
 					resource.value=None
 					parentEntity.Update()
-- 
2.43.0


From 506cb083bfd9565d57502d9a0d316537f1d697d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 163/305] fix: link collections ignored paging and gave
 relative uris

---
 pyslet/pyslet/odata2/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 969127f..e588371 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -647,9 +647,9 @@ class Server(app.Server):
 			data=str('{"d":%s}'%string.join(entities.GenerateLinkCollJSON(request.version),''))
 		else:
 			doc=Document(root=Links)
-			for e in entities.itervalues():
+			for e in entities.iterpage():
 				child=doc.root.ChildElement(URI)
-				child.SetValue(str(self.serviceRoot)+"%s(%s)"%(e.entitySet.name,repr(e.Key())))
+				child.SetValue(str(e.GetLocation()))
 			data=str(doc)
 		responseHeaders.append(("Content-Type",str(responseType)))
 		responseHeaders.append(("Content-Length",str(len(data))))
-- 
2.43.0


From b9985f9bda5bc6187567c22e79e21c9df30f3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 164/305] fix: JSON feeds ignored the server page limit

---
 pyslet/pyslet/odata2/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index e588371..a49fd14 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -693,6 +693,9 @@ class Server(app.Server):
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'xml, json or plain text formats supported',406)
 		if responseType=="application/json":
+			if request.version>=2:
+				# version 1 has no next link
+				entities.TopMax(self.topmax)
 			data=str('{"d":%s}'%string.join(entities.GenerateEntitySetInJSON(request.version),''))
 		else:
 			# Here's a challenge, we want to pull data through the feed by yielding strings
-- 
2.43.0


From 85ae405bfc6268d09cb1d7d2ec08eea52a6f4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 165/305] fix: unknown charsets and unparseable bodies raised
 in the OData server

---
 pyslet/pyslet/odata2/server.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index a49fd14..0aa12d2 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -727,6 +727,7 @@ class Server(app.Server):
 						atomFlag=False
 						break
 			encoding=requestType.parameters.get('charset',(None,None))[1]
+			self.CheckEncoding(encoding)
 		input=app.InputWrapper(environ)
 		unicodeInput=None
 		if encoding is None:
@@ -767,6 +768,14 @@ class Server(app.Server):
 					unicodeInput=codecs.getreader(encoding)(input)
 			return json.load(unicodeInput)
 			
+	def CheckEncoding(self,encoding):
+		"""Raises InvalidData if *encoding* is not None and not supported"""
+		if encoding is not None:
+			try:
+				codecs.lookup(encoding)
+			except LookupError:
+				raise InvalidData("Unsupported character encoding: %s"%encoding)
+	
 	def ReadEntity(self,entity,environ):
 		input=self.ReadXMLOrJSON(environ)
 		if isinstance(input,Document):
@@ -774,7 +783,7 @@ class Server(app.Server):
 				# we have an entry, which is a relief!
 				input.root.GetValue(entity,self.GetResourceFromURI,True)
 			else:
-				raise InvalidData("Unable to parse atom Entry from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse atom Entry from request body")
 		else:
 			# must be a json object
 			entity.SetFromJSONObject(input,self.GetResourceFromURI,True)
@@ -818,7 +827,7 @@ class Server(app.Server):
 			if isinstance(input.root,Property):
 				input.root.GetValue(value)
 			else:
-				raise InvalidData("Unable to parse property from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse property from request body")
 		else:
 			if isinstance(value,edm.SimpleValue):
 				ReadEntityPropertyInJSON1(value,input)
@@ -884,8 +893,9 @@ class Server(app.Server):
 		if not acceptType:
 			raise InvalidData("Unable to parse property value from request body (found <%s>)"%str(requestType))
 		data=app.InputWrapper(environ).read()
-		if requestType.type=="text":
+		if requestType is not None and requestType.type=="text":
 			encoding=requestType.parameters.get('charset',(None,None))[1]
+			self.CheckEncoding(encoding)
 			if encoding is None:
 				encoding="iso-8859-1"
 			data=data.decode(encoding)
-- 
2.43.0


From eb2d62d601366416ca1f1ff62e5ca696260b3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 166/305] fix: OData stream, value and collection responses
 failed

---
 pyslet/pyslet/odata2/server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 0aa12d2..b4c4aa4 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -796,7 +796,7 @@ class Server(app.Server):
 		# Here's a challenge, we want to pull data through the feed by yielding strings
 		# just load in to memory at the moment
 		if responseType=="application/json":
-			data=str('{"d":%s}'%string.join(entity.GenerateEntityTypeInJSON(),''))
+			data=str('{"d":%s}'%string.join(entity.GenerateEntityTypeInJSON(False,request.version),''))
 		else:
 			doc=Document(root=Entry)
 			e=doc.root
@@ -816,7 +816,7 @@ class Server(app.Server):
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'media stream type refused, try application/octet-stream',406)
 		responseHeaders.append(("Content-Type",str(responseType)))
-		responseHeaders.append(("Content-Length",entity.GetStreamSize()))
+		responseHeaders.append(("Content-Length",str(entity.GetStreamSize())))
 		self.SetETag(entity,responseHeaders)
 		start_response("%i %s"%(200,"Success"),responseHeaders)
 		return entity.GetStreamGenerator()
@@ -851,6 +851,7 @@ class Server(app.Server):
 					data='{"d":%s}'%EntityPropertyInJSON2(value)
 				else:
 					data='{"d":{%s}}'%EntityPropertyInJSON(value)					
+			data=str(data)
 		else:
 			e=Property(None)
 			e.SetXMLName((ODATA_DATASERVICES_NAMESPACE,value.pDef.name))
@@ -866,13 +867,14 @@ class Server(app.Server):
 				
 	def ReadDereferencedValue(self,value,environ):
 		encoding=None
+		requestType=None
 		if "CONTENT_TYPE" in environ:
 			requestType=http.MediaType.FromString(environ["CONTENT_TYPE"])
 		if value.mType is None:
 			acceptType=False
 			if isinstance(value,edm.BinaryValue):
 				if requestType:
-					for r in DeferenceBinaryRanges:
+					for r in self.DereferenceBinaryRanges:
 						if r.MatchMediaType(requestType):
 							acceptType=True
 				else:
@@ -888,7 +890,7 @@ class Server(app.Server):
 				acceptType=http.MediaRange.FromString(value.mType).MatchMediaType(requestType)
 			else:
 				# assume the user knows what they're doing!
-				requestType=value.mType
+				requestType=http.MediaType.FromString(value.mType)
 				acceptType=True
 		if not acceptType:
 			raise InvalidData("Unable to parse property value from request body (found <%s>)"%str(requestType))
@@ -932,7 +934,7 @@ class Server(app.Server):
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'xml, json or plain text formats supported',406)
 		if responseType=="application/json":
-			data='{"d":%s}'%string.join(collection.GenerateCollectionInJSON(request.version))
+			data=str('{"d":%s}'%string.join(collection.GenerateCollectionInJSON(request.version),''))
 		else:
 			e=Collection(None)
 			e.SetXMLName((ODATA_METADATA_NAMESPACE,collection.name))
-- 
2.43.0


From 9fd8c4556bee3b368dfe383a39fb3e1957dcc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 167/305] fix: malformed OData requests were answered with 500

---
 pyslet/pyslet/odata2/server.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index b4c4aa4..34c8276 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -2,7 +2,7 @@
 """This module implements the Open Data Protocol specification defined by Microsoft."""
 
 from types import *
-import sys, cgi, urllib, string, itertools, traceback, StringIO, json, base64, decimal, uuid, math, warnings, logging
+import sys, cgi, urllib, string, itertools, traceback, StringIO, json, base64, decimal, uuid, math, warnings, logging, codecs, re
 
 import pyslet.info as info
 import pyslet.iso8601 as iso
@@ -245,6 +245,8 @@ class Server(app.Server):
 			traceback.print_exception(*sys.exc_info())
 			# This is a bad request
 			return self.ODataError(ODataURI('error'),environ,start_response,"ValueError",str(e))
+		except (InvalidData,EvaluationError,xml.XMLError,uri.URIException,http.HTTPException,SyntaxError),e:
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","%s: %s"%(e.__class__.__name__,str(e)))
 		except:
 			eInfo=sys.exc_info()
 			traceback.print_exception(*eInfo)
@@ -539,7 +541,10 @@ class Server(app.Server):
 					entity=resource.NewEntity()
 					# read the entity from the request
 					self.ReadEntity(entity,environ)
-					resource.InsertEntity(entity)
+					try:
+						resource.InsertEntity(entity)
+					except KeyError,e:
+						raise edm.ConstraintError(str(e))
 					responseHeaders.append(('Location',str(entity.GetLocation())))
 					return self.ReturnEntity(entity,request,environ,start_response,responseHeaders,201,"Created")
 				else:
@@ -602,6 +607,8 @@ class Server(app.Server):
 			return self.ODataError(request,environ,start_response,"Resource not found","Resource not found for segment %s"%str(e),404)
 		except BadURISegment,e:
 			return self.ODataError(request,environ,start_response,"Bad Request","Resource not found for segment %s"%str(e),400)
+		except KeyError,e:
+			return self.ODataError(request,environ,start_response,"Resource not found",str(e),404)
 		except edm.NavigationError,e:
 			return self.ODataError(request,environ,start_response,"NavigationError",str(e),403)
 		except edm.ConstraintError,e:
-- 
2.43.0


From 7c4c06482b4e49e743c03193de8398d58dd63f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 168/305] fix: bad Atom dates raised DateTimeError while
 parsing

---
 pyslet/pyslet/rfc4287.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc4287.py b/pyslet/pyslet/rfc4287.py
index f0d41fa..f5cc2c7 100644
--- a/pyslet/pyslet/rfc4287.py
+++ b/pyslet/pyslet/rfc4287.py
@@ -18,6 +18,7 @@ A Date construct is an element whose content MUST conform to the "date-time" pro
 import string, types, itertools
 import pyslet.info
 import pyslet.iso8601 as iso8601
+from pyslet.rfc2234 import RFCSyntaxError
 import pyslet.html40_19991224 as html
 import pyslet.xml20081126.structures as xml
 import pyslet.xmlnames20091208 as xmlns
@@ -187,7 +188,10 @@ class Date(AtomElement):
 		
 	def ContentChanged(self):
 		"""Re-reads the value of the element and sets :py:attr:`date` accordingly."""
-		self.date=iso8601.TimePoint.FromString(AtomElement.GetValue(self))
+		try:
+			self.date=iso8601.TimePoint.FromString(AtomElement.GetValue(self))
+		except (iso8601.DateTimeError,RFCSyntaxError),e:
+			raise ValueError(str(e))
 
 
 class Updated(Date):
-- 
2.43.0


From 522bb1df8217b3cf826e4debb01530fad13c4cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 169/305] fix: undefined name in feed customisation of string
 properties as dates

---
 pyslet/pyslet/odata2/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 1ae4a31..3d2d357 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -3223,11 +3223,11 @@ class Entry(atom.Entry):
 						targetElement.SetValue(unicode(dtOffset))						
 					elif isinstance(v,edm.StringValue):
 						try:
-							dtOffset=iso8601.TimePoint.FromString(v.value)
+							dtOffset=iso.TimePoint.FromString(v.value)
 							if dtOffset.GetZone()[0] is None:
 								dtOffset=dtOffset.WithZone(zDirection=0)
 							targetElement.SetValue(unicode(dtOffset))
-						except iso8601.DateTimeError:
+						except iso.DateTimeError:
 							# do nothing
 							pass
 				elif isinstance(v,edm.SimpleValue) and v:
@@ -3351,11 +3351,11 @@ class Entry(atom.Entry):
 				targetElement.SetValue(unicode(dtOffset))						
 			elif isinstance(v,edm.StringValue):
 				try:
-					dtOffset=iso8601.TimePoint.FromString(v.value)
+					dtOffset=iso.TimePoint.FromString(v.value)
 					if dtOffset.GetZone()[0] is None:
 						dtOffset=dtOffset.WithZone(zDirection=0)
 					targetElement.SetValue(unicode(dtOffset))
-				except iso8601.DateTimeError:
+				except iso.DateTimeError:
 					# do nothing
 					pass
 		elif isinstance(v,edm.SimpleValue) and v:
-- 
2.43.0


From 05d5689cd1620e95ac44a836fc17391964206d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 170/305] fix: incomplete DateTimeOffset values raised
 DateTimeError

---
 pyslet/pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 2910519..dd0ccbd 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1226,7 +1226,7 @@ class DateTimeOffsetValue(SimpleValue):
 			if zOffset is None:
 				raise ValueError("DateTimeOffset requires a time zone specifier: %s"%newValue)
 			if not newValue.Complete():
-				raise ValueError("DateTimeOffset requires a complete representation: %s"%str(newValue))
+				raise ValueError("DateTimeOffset requires a complete representation")
 			self.value=newValue	
 		elif (isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType)) and newValue>=0:
 			try:
-- 
2.43.0


From e5a462d47fddeedd46905a6003f22cfae4b559da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 171/305] fix: OData errors quoting non-ASCII text could not be
 reported

---
 pyslet/pyslet/odata2/server.py | 35 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 34c8276..932b237 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -20,7 +20,14 @@ import csdl as edm
 from core import *
 import metadata as edmx
 	
-					
+def ErrorText(e):
+	"""Returns the message of exception *e*, which may not be plain ASCII"""
+	try:
+		return str(e)
+	except UnicodeError:
+		return unicode(e)
+
+	
 class WSGIWrapper(object):
 	def __init__(self,environ,start_response,responseHeaders):
 		"""A simple wrapper class for a wsgi application.
@@ -236,17 +243,17 @@ class Server(app.Server):
 			else:
 				return self.HandleRequest(request,environ,start_response,responseHeaders)
 		except InvalidSystemQueryOption,e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%str(e))
+			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%ErrorText(e))
 		except InvalidPathOption,e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Path option is invalid or incompatible with this form of URI: %s"%str(e),400)			
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Path option is invalid or incompatible with this form of URI: %s"%ErrorText(e),400)			
 		except InvalidMethod,e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Method not allowed: %s"%str(e),400)			
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Method not allowed: %s"%ErrorText(e),400)			
 		except ValueError,e:
 			traceback.print_exception(*sys.exc_info())
 			# This is a bad request
-			return self.ODataError(ODataURI('error'),environ,start_response,"ValueError",str(e))
+			return self.ODataError(ODataURI('error'),environ,start_response,"ValueError",ErrorText(e))
 		except (InvalidData,EvaluationError,xml.XMLError,uri.URIException,http.HTTPException,SyntaxError),e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","%s: %s"%(e.__class__.__name__,str(e)))
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","%s: %s"%(e.__class__.__name__,ErrorText(e)))
 		except:
 			eInfo=sys.exc_info()
 			traceback.print_exception(*eInfo)
@@ -544,7 +551,7 @@ class Server(app.Server):
 					try:
 						resource.InsertEntity(entity)
 					except KeyError,e:
-						raise edm.ConstraintError(str(e))
+						raise edm.ConstraintError(ErrorText(e))
 					responseHeaders.append(('Location',str(entity.GetLocation())))
 					return self.ReturnEntity(entity,request,environ,start_response,responseHeaders,201,"Created")
 				else:
@@ -604,17 +611,17 @@ class Server(app.Server):
 					# that we ourselves are hiding.
 					# return wrapper.call(super(Server,self).__call__)
 		except MissingURISegment,e:
-			return self.ODataError(request,environ,start_response,"Resource not found","Resource not found for segment %s"%str(e),404)
+			return self.ODataError(request,environ,start_response,"Resource not found","Resource not found for segment %s"%ErrorText(e),404)
 		except BadURISegment,e:
-			return self.ODataError(request,environ,start_response,"Bad Request","Resource not found for segment %s"%str(e),400)
+			return self.ODataError(request,environ,start_response,"Bad Request","Resource not found for segment %s"%ErrorText(e),400)
 		except KeyError,e:
-			return self.ODataError(request,environ,start_response,"Resource not found",str(e),404)
+			return self.ODataError(request,environ,start_response,"Resource not found",ErrorText(e),404)
 		except edm.NavigationError,e:
-			return self.ODataError(request,environ,start_response,"NavigationError",str(e),403)
+			return self.ODataError(request,environ,start_response,"NavigationError",ErrorText(e),403)
 		except edm.ConstraintError,e:
-			return self.ODataError(request,environ,start_response,"ConstraintError",str(e),403)
+			return self.ODataError(request,environ,start_response,"ConstraintError",ErrorText(e),403)
 		except NotImplementedError,e:
-			return self.ODataError(request,environ,start_response,"NotImplementedError",str(e),405)
+			return self.ODataError(request,environ,start_response,"NotImplementedError",ErrorText(e),405)
 			
 	def ExpandResource(self,resource,sysQueryOptions):
 		try:
@@ -626,7 +633,7 @@ class Server(app.Server):
 				raise InvalidSystemQueryOption("$select/$expand not allowed")
 			resource.Expand(expand,select)		
 		except ValueError as e:
-			raise InvalidSystemQueryOption("$select/$expand error: %s"%str(e))					
+			raise InvalidSystemQueryOption("$select/$expand error: %s"%ErrorText(e))					
 		
 	def ReturnJSONRoot(self,request,environ,start_response,responseHeaders):
 		data=str('{"d":%s}'%json.dumps({'EntitySets':map(lambda x:x.href,self.ws.Collection)}))
-- 
2.43.0


From 458e076b1f20213173eb0e58c1f50f3f12263199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 172/305] fix: $links accepted properties that are not links

---
 pyslet/pyslet/odata2/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 932b237..0c86d68 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -429,6 +429,8 @@ class Server(app.Server):
 				# resource will be the target entity, a collection or None 
 				if not isinstance(parentEntity,Entity):
 					raise BadURISegment("$links must be preceded by a single EntityType instance")
+				if request.linksProperty not in parentEntity.NavigationKeys():
+					raise BadURISegment("%s is not a navigation property"%request.linksProperty)
 				if method=="GET":
 					# open the collection and select the key properties only
 					if isinstance(resource,edm.EntityCollection):
-- 
2.43.0


From a7e2118a2c6e117ca06f56f8de42db49563fd275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 173/305] fix: a link to an entity of another set was answered
 with 500

---
 pyslet/pyslet/odata2/server.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 0c86d68..c3923a3 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -454,7 +454,7 @@ class Server(app.Server):
 						resource=parentEntity[request.linksProperty].OpenCollection()
 					if isinstance(resource,edm.EntityCollection):
 						with resource as collection:
-							targetEntity=self.ReadEntityFromLink(environ)
+							targetEntity=self.ReadEntityFromLink(environ,collection.entitySet)
 							collection[targetEntity.Key()]=targetEntity
 						return self.ReturnEmpty(start_response,responseHeaders)
 					else:
@@ -464,7 +464,7 @@ class Server(app.Server):
 					if parentEntity[request.linksProperty].isCollection:
 						raise BadURISegment("%s: can't update a link with multiplicity *"%request.linksProperty)
 					with parentEntity[request.linksProperty].OpenCollection() as collection:
-						targetEntity=self.ReadEntityFromLink(environ)
+						targetEntity=self.ReadEntityFromLink(environ,collection.entitySet)
 						collection.Replace(targetEntity)
 					return self.ReturnEmpty(start_response,responseHeaders)
 				elif method=="DELETE":
@@ -672,7 +672,7 @@ class Server(app.Server):
 		start_response("%i %s"%(200,"Success"),responseHeaders)
 		return [data]
 		
-	def ReadEntityFromLink(self,environ):
+	def ReadEntityFromLink(self,environ,entitySet):
 		input=self.ReadXMLOrJSON(environ)
 		if isinstance(input,Document):
 			if isinstance(input.root,URI):
@@ -686,6 +686,8 @@ class Server(app.Server):
 			resource=self.GetResourceFromURI(uri.URIFactory.URI(input['uri']))
 		if not isinstance(resource,edm.Entity):
 			raise InvalidData("Link does not identify an entity")
+		if resource.entitySet is not entitySet:
+			raise InvalidData("Link does not identify an entity in %s"%entitySet.name)
 		return resource
 		
 	def ReturnLink(self,entity,request,environ,start_response,responseHeaders):
-- 
2.43.0


From d9988b560e400b1c66338629327269242cd0c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 174/305] fix: an XML request body in an unknown encoding was
 answered with 500

---
 pyslet/pyslet/odata2/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index c3923a3..64c84b2 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -776,7 +776,11 @@ class Server(app.Server):
 		if atomFlag==True:
 			# read atom file
 			doc=Document()
-			doc.Read(src=xml.XMLEntity(src=input,encoding=encoding))
+			try:
+				doc.Read(src=xml.XMLEntity(src=input,encoding=encoding))
+			except LookupError,e:
+				# the XML declaration names an unknown encoding
+				raise InvalidData(str(e))
 			return doc
 		else:
 			if unicodeInput is None:
-- 
2.43.0


From 29eafdd690efa05afa4d5e02765afc275284e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 175/305] fix: an OData update without the key properties lost
 the key

---
 pyslet/pyslet/odata2/server.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 64c84b2..0066ded 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -799,6 +799,11 @@ class Server(app.Server):
 				raise InvalidData("Unsupported character encoding: %s"%encoding)
 	
 	def ReadEntity(self,entity,environ):
+		if entity.exists:
+			# the identity of an existing entity can't be changed
+			keyDict=dict((k,v.value) for k,v in entity.KeyDict().items())
+		else:
+			keyDict={}
 		input=self.ReadXMLOrJSON(environ)
 		if isinstance(input,Document):
 			if isinstance(input.root,Entry):
@@ -809,6 +814,8 @@ class Server(app.Server):
 		else:
 			# must be a json object
 			entity.SetFromJSONObject(input,self.GetResourceFromURI,True)
+		for k,v in keyDict.items():
+			entity[k].value=v
 		
 	def ReturnEntity(self,entity,request,environ,start_response,responseHeaders,status=200,statusMsg="Success"):
 		"""Returns a single Entity."""
-- 
2.43.0


From 19c61f3d91fb79558534afa6ec433c090a05b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 176/305] fix: Atom entries of media entities without a stream
 source could not be created

---
 pyslet/pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 3d2d357..61c599f 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -3320,8 +3320,12 @@ class Entry(atom.Entry):
 		if mediaLinkResource:
 			if entity.exists and not forUpdate:
 				content=self.ChildElement(self.ContentClass)
-				content.type=str(entity.GetStreamType())
 				content.src=uri.URIFactory.URI(location+"/$value")
+				try:
+					content.type=str(entity.GetStreamType())
+				except NotImplementedError:
+					# no access to the stream itself
+					pass
 			self.ChildElement(Properties)
 		else:
 			self.ChildElement(Content).ChildElement(Properties)
-- 
2.43.0


From 2ecb0f73bde09d0be05edd5ac982ba73a22d1657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 177/305] fix: loading an empty expansion of a single link
 raised UnboundLocalError

---
 pyslet/pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 61c599f..65d2e9a 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2941,13 +2941,13 @@ class Link(atom.Link):
 		if self.Inline is not None:
 			targetEntitySet=deferred.Target()
 			with targetEntitySet.OpenCollection() as collection:
+				entries=[]
 				if self.Inline.Entry is not None:
 					entity=collection.NewEntity()
 					entity.exists=exists
 					self.Inline.Entry.GetValue(entity)
 					entries=[entity]
 				elif self.Inline.Feed is not None:
-					entries=[]
 					for entry in self.Inline.Feed.FindChildrenDepthFirst(Entry,subMatch=False):
 						entity=collection.NewEntity()
 						entity.exists=exists
-- 
2.43.0


From 63f7226146c3c56333c72a4b5ba6e41cb0774a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 178/305] fix: media link entries read by the OData client had
 no access to their streams

---
 pyslet/pyslet/odata2/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/client.py b/pyslet/pyslet/odata2/client.py
index 520df7b..2bb586d 100755
--- a/pyslet/pyslet/odata2/client.py
+++ b/pyslet/pyslet/odata2/client.py
@@ -220,7 +220,7 @@ class ClientCollection(core.EntityCollection):
 			if isinstance(doc.root,atom.Feed):
 				if len(doc.root.Entry):
 					for e in doc.root.Entry:
-						entity=core.Entity(self.entitySet)
+						entity=self.NewEntity()
 						entity.exists=True
 						e.GetValue(entity)
 						yield entity
@@ -276,7 +276,7 @@ class ClientCollection(core.EntityCollection):
 		if isinstance(doc.root,atom.Feed):
 			if len(doc.root.Entry):
 				for e in doc.root.Entry:
-					entity=core.Entity(self.entitySet)
+					entity=self.NewEntity()
 					entity.exists=True
 					e.GetValue(entity)
 					yield entity
@@ -321,7 +321,7 @@ class ClientCollection(core.EntityCollection):
 		doc=core.Document(baseURI=entityURL)
 		doc.Read(request.resBody)
 		if isinstance(doc.root,atom.Entry):
-			entity=core.Entity(self.entitySet)
+			entity=self.NewEntity()
 			entity.exists=True
 			doc.root.GetValue(entity)
 			return entity
@@ -452,7 +452,7 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 			doc=core.Document(baseURI=entityURL)
 			doc.Read(request.resBody)
 			if isinstance(doc.root,atom.Entry):
-				entity=core.Entity(self.entitySet)
+				entity=self.NewEntity()
 				entity.exists=True
 				doc.root.GetValue(entity)
 				return 1
@@ -485,7 +485,7 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 			doc=core.Document(baseURI=entityURL)
 			doc.Read(request.resBody)
 			if isinstance(doc.root,atom.Entry):
-				entity=core.Entity(self.entitySet)
+				entity=self.NewEntity()
 				entity.exists=True
 				doc.root.GetValue(entity)
 				yield entity
@@ -517,7 +517,7 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 			doc=core.Document(baseURI=entityURL)
 			doc.Read(request.resBody)
 			if isinstance(doc.root,atom.Entry):
-				entity=core.Entity(self.entitySet)
+				entity=self.NewEntity()
 				entity.exists=True
 				doc.root.GetValue(entity)
 				if entity.Key()==key:
-- 
2.43.0


From ff739defbd15643413ae04156b86514ec9e1d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 179/305] fix: the OData client kept the skip token of earlier
 pages

---
 pyslet/pyslet/odata2/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/odata2/client.py b/pyslet/pyslet/odata2/client.py
index 2bb586d..033a366 100755
--- a/pyslet/pyslet/odata2/client.py
+++ b/pyslet/pyslet/odata2/client.py
@@ -246,6 +246,7 @@ class ClientCollection(core.EntityCollection):
 		self.top=top
 		self.skip=skip
 		self.skiptoken=skiptoken	# opaque in the client implementation
+		self.nextSkiptoken=None
 		
 	def iterpage(self,setNextPage=False):
 		feedURL=self.baseURI
-- 
2.43.0


From b52ba9ce73a87ba8da00926bf9d8a1a60288a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 180/305] fix: the OData client could not page navigation
 properties with a single entity

---
 pyslet/pyslet/odata2/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/pyslet/odata2/client.py b/pyslet/pyslet/odata2/client.py
index 033a366..3449266 100755
--- a/pyslet/pyslet/odata2/client.py
+++ b/pyslet/pyslet/odata2/client.py
@@ -493,6 +493,13 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 			else:
 				raise core.InvalidEntryDocument(str(entityURL))
 
+	def iterpage(self,setNextPage=False):
+		if self.isCollection:
+			return super(NavigationCollection,self).iterpage(setNextPage)
+		else:
+			# paging options can't be used with a single entity
+			return edm.EntityCollection.iterpage(self,setNextPage)
+		
 	def __getitem__(self,key):
 		if self.isCollection:
 			return super(NavigationCollection,self).__getitem__(key)
-- 
2.43.0


From 081cbf8a1c6e0111609a72f2b7dbc61c7f2ad3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 181/305] fix: the OData client removed existing links before a
 replacement was accepted

---
 pyslet/pyslet/odata2/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/client.py b/pyslet/pyslet/odata2/client.py
index 3449266..3862b71 100755
--- a/pyslet/pyslet/odata2/client.py
+++ b/pyslet/pyslet/odata2/client.py
@@ -589,8 +589,13 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 		if not entity.exists:
 			raise edm.NonExistentEntity(str(entity.GetLocation()))
 		if self.isCollection:
-			# inherit the implementation
-			super(NavigationCollection,self).Replace(entity)
+			# add the new link first, if we can't link to entity then
+			# the existing links must remain
+			key=entity.Key()
+			self[key]=entity
+			for oldKey in self.keys():
+				if oldKey!=key:
+					del self[oldKey]
 		else:
 			if not isinstance(entity,edm.Entity) or entity.entitySet is not self.entitySet:
 				raise TypeError
-- 
2.43.0


From de8030a0e95aa85f95f34d8e9642b5dd1a1eafe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 182/305] fix: the OData client removed a link whatever key was
 given

---
 pyslet/pyslet/odata2/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/client.py b/pyslet/pyslet/odata2/client.py
index 3862b71..d346ad4 100755
--- a/pyslet/pyslet/odata2/client.py
+++ b/pyslet/pyslet/odata2/client.py
@@ -616,7 +616,8 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 			entity.SetKey(key)
 			request=http.HTTPRequest(str(self.linksURI)+core.ODataURI.FormatEntityKey(entity),'DELETE')
 		else:
-			# danger, how do we know that key really is the right one?
+			if key not in self:
+				raise KeyError(key)
 			request=http.HTTPRequest(str(self.linksURI),'DELETE')
 		self.client.ProcessRequest(request)
 		if request.status==204:
-- 
2.43.0


From caa3f259124020514f4ee6ec092fd9a7e7e89bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 183/305] fix: undefined exception in OData client

---
 pyslet/pyslet/odata2/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/client.py b/pyslet/pyslet/odata2/client.py
index d346ad4..066bf28 100755
--- a/pyslet/pyslet/odata2/client.py
+++ b/pyslet/pyslet/odata2/client.py
@@ -670,7 +670,7 @@ class Client(app.Client):
 					if f.Title:
 						self.feeds[f.Title.GetValue()]=url
 		else:
-			raise InvalidServiceDocument(str(serviceRoot))
+			raise core.InvalidServiceDocument(str(serviceRoot))
 		self.pathPrefix=self.serviceRoot.absPath
 		if self.pathPrefix[-1]==u"/":
 			self.pathPrefix=self.pathPrefix[:-1]
-- 
2.43.0


From a7d6c78ec544835276c7f88994bf0dd7753730e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 184/305] fix: the OData client ignored filters when looking up
 single entities

---
 pyslet/pyslet/odata2/client.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/client.py b/pyslet/pyslet/odata2/client.py
index 066bf28..ac9c0c2 100755
--- a/pyslet/pyslet/odata2/client.py
+++ b/pyslet/pyslet/odata2/client.py
@@ -1,7 +1,7 @@
 #! /usr/bin/env python
 """This module implements the Open Data Protocol specification defined by Microsoft."""
 
-import sys, urllib, logging
+import sys, string, urllib, logging
 import pyslet.info as info
 import pyslet.rfc2396 as uri
 import pyslet.rfc2616 as http
@@ -301,6 +301,24 @@ class ClientCollection(core.EntityCollection):
 		else:
 			raise core.InvalidFeedDocument(str(feedURL))
 
+	def CheckFilter(self,entity):
+		"""Returns True if *entity* passes the filter (if any)
+		
+		Servers may ignore the filter when returning a single entity so
+		we count the matching entities in the entity set instead."""
+		if self.filter is None:
+			return True
+		filter=[u"(%s)"%unicode(self.filter)]
+		for k,v in entity.KeyDict().items():
+			filter.append(u"%s eq %s"%(k,core.ODataURI.FormatLiteral(v)))
+		sysQueryOptions={core.SystemQueryOption.filter:string.join(filter,u" and ")}
+		request=http.HTTPRequest(str(self.entitySet.GetLocation())+"/$count?"+core.ODataURI.FormatSysQueryOptions(sysQueryOptions))
+		request.SetHeader('Accept','text/plain')
+		self.client.ProcessRequest(request)
+		if request.status!=200:
+			raise UnexpectedHTTPResponse("%i %s"%(request.status,request.response.reason))	
+		return int(request.resBody)>0
+
 	def __getitem__(self,key):
 		entityURL=str(self.baseURI)+core.ODataURI.FormatKeyDict(self.entitySet.GetKeyDict(key))
 		sysQueryOptions={}
@@ -325,6 +343,8 @@ class ClientCollection(core.EntityCollection):
 			entity=self.NewEntity()
 			entity.exists=True
 			doc.root.GetValue(entity)
+			if not self.CheckFilter(entity):
+				raise KeyError(key)
 			return entity
 		elif isinstance(doc.root,core.Error):
 			raise KeyError(key)
@@ -456,7 +476,7 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 				entity=self.NewEntity()
 				entity.exists=True
 				doc.root.GetValue(entity)
-				return 1
+				return 1 if self.CheckFilter(entity) else 0
 			else:
 				raise core.InvalidEntryDocument(str(entityURL))
 
@@ -489,7 +509,8 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 				entity=self.NewEntity()
 				entity.exists=True
 				doc.root.GetValue(entity)
-				yield entity
+				if self.CheckFilter(entity):
+					yield entity
 			else:
 				raise core.InvalidEntryDocument(str(entityURL))
 
@@ -528,7 +549,7 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 				entity=self.NewEntity()
 				entity.exists=True
 				doc.root.GetValue(entity)
-				if entity.Key()==key:
+				if entity.Key()==key and self.CheckFilter(entity):
 					return entity
 				else:
 					raise KeyError(key)
-- 
2.43.0


From 53cf85b4760d54edf3a0e5b71cc219cb95c2c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 185/305] fix: undefined names crashed metadata lookups

---
 pyslet/pyslet/odata2/csdl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index dd0ccbd..17e55fd 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -397,6 +397,8 @@ class NameTableMixin(DictionaryLike):
 		return result
 			
 	def _SplitKey(self,key):
+		if key is None:
+			return None,key
 		sKey=key.split(".")
 		pathLen=1
 		while pathLen<len(sKey):
-- 
2.43.0


From 877486926fdf851b1a01df50d9f63df9a537940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 186/305] fix: maxLength values over 2^31 were accepted

---
 pyslet/pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 17e55fd..7c13d78 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3175,7 +3175,7 @@ def DecodeMaxLength(value):
 		return MAX
 	else:
 		result=xsi.DecodeInteger(value)
-		if result<1:
+		if result<1 or result>0x80000000L:
 			raise ValueError("Can't read maxLength from %s"%repr(value))
 		return result
 
-- 
2.43.0


From 0e658bbb1eb38adf7ccc90feeda0b40bdc1a0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 187/305] fix: a navigation property from a role to itself was
 accepted

---
 pyslet/pyslet/odata2/csdl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 7c13d78..e3eddb3 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3334,7 +3334,9 @@ class NavigationProperty(CSDLElement):
 				raise KeyError("%s is not a valid end-point for %s"%(self.fromRole,self.relationship))
 			self.toEnd=self.association[self.toRole]
 			if self.toEnd is None or not isinstance(self.toEnd,AssociationEnd):
-				raise KeyError("%s is not a valid end-point for %s"%(self.fromRole,self.relationship))
+				raise KeyError("%s is not a valid end-point for %s"%(self.toRole,self.relationship))
+			if self.toEnd is self.fromEnd:
+				raise KeyError("%s is both ends of %s"%(self.toRole,self.relationship))
 		except KeyError:
 			self.association=self.fromEnd=self.toEnd=None
 			if stopOnErrors:
-- 
2.43.0


From d74bfb6da3a215e2325ba76600fa037416d539b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 188/305] fix: the name of a type outside a schema could not be
 obtained

---
 pyslet/pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index e3eddb3..b3a9879 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3435,7 +3435,7 @@ class Type(NameTableMixin,CSDLElement):
 		"""Returns the full name of this type, including the schema namespace prefix."""
 		schema=self.FindParent(Schema)
 		if schema is None:
-			return name
+			return self.name
 		else:
 			return string.join((schema.name,'.',self.name),'')
 		
-- 
2.43.0


From feb6ad8dc7d53943e131e2c539351ea8f4afb5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 189/305] fix: an entity type without a key could not be loaded

---
 pyslet/pyslet/odata2/csdl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index b3a9879..a9c22d8 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3531,7 +3531,8 @@ class EntityType(Type):
 		super(EntityType,self).UpdateTypeRefs(scope,stopOnErrors)
 		for p in self.NavigationProperty:
 			p.UpdateTypeRefs(scope,stopOnErrors)
-		self.Key.UpdateTypeRefs(scope,stopOnErrors)
+		if self.Key is not None:
+			self.Key.UpdateTypeRefs(scope,stopOnErrors)
 
 	
 class ComplexType(Type):
@@ -3839,6 +3840,8 @@ class EntitySet(CSDLElement):
 			self.entityType=scope[self.entityTypeName]
 			if not isinstance(self.entityType,EntityType):
 				raise KeyError("%s is not an EntityType"%self.entityTypeName)
+			if self.entityType.Key is None:
+				raise KeyError("%s has no Key"%self.entityTypeName)
 			self.keys=[]
 			for kp in self.entityType.Key.PropertyRef:
 				self.keys.append(kp.name)
-- 
2.43.0


From 8dbbe680d743b7afd8ac77d8c2c7697cf4d8da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 190/305] fix: invalid multiplicities were silently accepted

---
 pyslet/pyslet/odata2/csdl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index a9c22d8..f07903d 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3559,8 +3559,12 @@ MutliplicityMap={
 def DecodeMultiplicity(src):
 	"""Decodes a :py:class:`Multiplicity` value from a unicode string.
 	
-	The valid strings are "0..1", "1" and "*" """
-	return MutliplicityMap.get(src.strip(),None)
+	The valid strings are "0..1", "1" and "*", for anything else
+	ValueError is raised."""
+	try:
+		return MutliplicityMap[src.strip()]
+	except KeyError:
+		raise ValueError("Can't read multiplicity from %s"%repr(src))
 
 def EncodeMultiplicity(value):
 	"""Encodes a :py:class:`Multiplicity` value as a unicode string."""
-- 
2.43.0


From f6ab67af0ee1a4531576dd538b77b82ed375e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 191/305] fix: the default role of an association end was not
 used

---
 pyslet/pyslet/odata2/csdl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index f07903d..c82ef0c 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3600,6 +3600,9 @@ class Association(NameTableMixin,CSDLElement):
 		
 	def ContentChanged(self):
 		for ae in self.AssociationEnd:
+			if ae.name is None and ae.type is not None:
+				# the default role is the unqualified name of the type
+				ae.name=ae.type.split('.')[-1]
 			self.Declare(ae)
 		
 	def GetChildren(self):
-- 
2.43.0


From 8295e36ebc2a4e55567e169c5001aab21381daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 192/305] fix: back links of associations from a type to itself
 were wrong

---
 pyslet/pyslet/odata2/csdl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index c82ef0c..551a479 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3623,8 +3623,12 @@ class Association(NameTableMixin,CSDLElement):
 		# Once we find them, set the back-link
 		npList=[]
 		for iEnd in self.AssociationEnd:
+			if iEnd.entityType is None:
+				# an undeclared type has no properties
+				continue
 			for np in iEnd.entityType.NavigationProperty:
-				if scope[np.relationship] is self:
+				# check the role too, an entity type may be at both ends
+				if np.fromRole==iEnd.name and scope.get(np.relationship,None) is self:
 					npList.append(np)
 					break
 		if len(npList)==2:
-- 
2.43.0


From 3715c968b9d5b6c8ad2f03176f762470ba1f3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 193/305] fix: an association end bound to something else
 raised a string

---
 pyslet/pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 551a479..10478e7 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3665,7 +3665,7 @@ class AssociationEnd(CSDLElement):
 			self.entityType=self.otherEnd=None
 			self.entityType=scope[self.type]
 			if not isinstance(self.entityType,EntityType):
-				raise "AssociationEnd not bound to EntityType (%s)"%self.type
+				raise KeyError("AssociationEnd not bound to EntityType (%s)"%self.type)
 			if not isinstance(self.parent,Association) or not len(self.parent.AssociationEnd)==2:
 				raise ModelIncomplete("AssociationEnd has missing or incomplete parent (Role=%s)"%self.name)
 			for iEnd in self.parent.AssociationEnd:
-- 
2.43.0


From a1fa8650fa0385d8c5113320cf4536f151583943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 194/305] fix: incomplete association sets crashed metadata
 loading

---
 pyslet/pyslet/odata2/csdl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 10478e7..85366d3 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -3867,7 +3867,8 @@ class EntitySet(CSDLElement):
 		if container and self.entityType:
 			for associationSet in container.AssociationSet:
 				for iEnd in associationSet.AssociationSetEnd:
-					if iEnd.entitySet is self:
+					if (iEnd.entitySet is self and iEnd.associationEnd is not None and
+						iEnd.otherEnd.associationEnd is not None):
 						# there is no requirement that says every
 						# AssociationSetEnd must be represented by a
 						# corresponding navigation property.
@@ -4192,7 +4193,8 @@ class AssociationSetEnd(CSDLElement):
 						# so we match the end of iEnd!
 						self.associationEnd=iEnd.otherEnd
 						# Fix up the role name while we're at it
-						self.name=self.associationEnd.name
+						if self.associationEnd is not None:
+							self.name=self.associationEnd.name
 						break
 				else:
 					# hard case, two blank associations
-- 
2.43.0


From 49d2006f25b77901bdf9f3517db5f5c595a54dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 195/305] fix: association sets with one role at both ends were
 accepted

---
 pyslet/pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 85366d3..e15e799 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -4202,7 +4202,7 @@ class AssociationSetEnd(CSDLElement):
 						self.associationEnd=iEnd
 						self.name=self.associationEnd.name
 						break
-			if self.associationEnd is None:
+			if self.associationEnd is None or self.otherEnd.name==self.name:
 				raise ModelIncomplete("Failed to match AssociationSetEnds to their definitions: %s"%self.parent.name)
 		except KeyError:
 			self.entitySet=self.otherEnd=self.associationEnd=None
-- 
2.43.0


From 7338de582c8cdec5d3dab692de6ed285159b5d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 196/305] fix: function imports that return nothing lost their
 parameters

---
 pyslet/pyslet/odata2/csdl.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index e15e799..6608bd8 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -4223,9 +4223,9 @@ class FunctionImport(CSDLElement):
 	def __init__(self,parent):
 		CSDLElement.__init__(self,parent)
 		self.name="Default"			#: the declared name of this function import
-		self.returnType=""			#: the return type of the function
+		self.returnType=None		#: the return type of the function (None if it returns nothing)
 		self.returnTypeRef=None		#: reference to the return type definition
-		self.entitySetName=''		#: the name of the entity set from which the return values are taken
+		self.entitySetName=None		#: the name of the entity set from which the return values are taken (if applicable)
 		self.entitySet=None			#: the :py:class:`EntitySet` corresponding to :py:attr:`entitySetName`
 		self.binding=None,{}		#: a callable to use when executing this function (see :py:meth:`Bind`)
 		self.Documentation=None
@@ -4247,8 +4247,10 @@ class FunctionImport(CSDLElement):
 	def UpdateSetRefs(self,scope,stopOnErrors=False):
 		"""Sets :py:attr:`entitySet` if applicable"""
 		try:
-			self.entitySet=None
-			self.returnTypeRef=TypeRef(self.returnType,scope)
+			self.entitySet=self.returnTypeRef=None
+			if self.returnType:
+				self.returnTypeRef=TypeRef(self.returnType,scope)
+			returnTypeDef=self.returnTypeRef.typeDef if self.returnTypeRef else None
 			if self.entitySetName:
 				container=self.FindParent(EntityContainer)
 				if container:
@@ -4256,7 +4258,7 @@ class FunctionImport(CSDLElement):
 				if not isinstance(self.entitySet,EntitySet):
 					raise KeyError("%s is not an EntitySet"%self.entitySetName)
 			else:
-				if isinstance(self.returnTypeRef.typeDef,EntityType) and self.returnTypeRef.collection:
+				if isinstance(returnTypeDef,EntityType) and self.returnTypeRef.collection:
 					raise KeyError("Return type %s requires an EntitySet"%self.returnType) 
 			for p in self.Parameter:
 				p.UpdateSetRefs(scope,stopOnErrors)
@@ -4267,11 +4269,11 @@ class FunctionImport(CSDLElement):
 	
 	def IsCollection(self):
 		"""Returns True if this FunctionImport returns a collection."""
-		return self.returnTypeRef.collection
+		return self.returnTypeRef is not None and self.returnTypeRef.collection
 		
 	def IsEntityCollection(self):
 		"""Returns True if this FunctionImport returns a collection of entities."""
-		return self.entitySet is not None and self.returnTypeRef.collection
+		return self.entitySet is not None and self.IsCollection()
 		
 	def Bind(self,callable,**extraArgs):
 		"""Binds this instance of FunctionImport to a callable with the
-- 
2.43.0


From cbe3169b35701ae5bd738d8e4fc92dc2afc2bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 197/305] fix: function imports could name an entity set of
 another type

---
 pyslet/pyslet/odata2/csdl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 6608bd8..425b616 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -4257,6 +4257,9 @@ class FunctionImport(CSDLElement):
 					self.entitySet=container[self.entitySetName]
 				if not isinstance(self.entitySet,EntitySet):
 					raise KeyError("%s is not an EntitySet"%self.entitySetName)
+				if not isinstance(returnTypeDef,EntityType) or (self.entitySet.entityType is not None and
+					returnTypeDef.baseType is None and returnTypeDef is not self.entitySet.entityType):
+					raise KeyError("Return type %s is not the type of EntitySet %s"%(self.returnType,self.entitySetName))
 			else:
 				if isinstance(returnTypeDef,EntityType) and self.returnTypeRef.collection:
 					raise KeyError("Return type %s requires an EntitySet"%self.returnType) 
-- 
2.43.0


From 4c6388c5c49e5fefcc64af39f75e81fa2d6a4958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 198/305] fix: facets of function parameters were left as
 strings

---
 pyslet/pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 425b616..19addc8 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -4332,8 +4332,8 @@ class Parameter(CSDLElement):
 	XMLATTR_Type='type'
 	XMLATTR_Mode=('mode',ParameterMode.DecodeValue,ParameterMode.EncodeValue)
 	XMLATTR_MaxLength=('maxLength',DecodeMaxLength,EncodeMaxLength)
-	XMLATTR_Precision='precision'
-	XMLATTR_Scale='scale'
+	XMLATTR_Precision=('precision',xsi.DecodeInteger,xsi.EncodeInteger)
+	XMLATTR_Scale=('scale',xsi.DecodeInteger,xsi.EncodeInteger)
 	XMLCONTENT=xmlns.ElementType.ElementContent
 	
 	def __init__(self,parent):
-- 
2.43.0


From 5e325bacfedf4c1b319756ca8d478a076c04a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 199/305] fix: missing and wrong feed customisation paths

---
 pyslet/pyslet/odata2/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/metadata.py b/pyslet/pyslet/odata2/metadata.py
index 9854f08..55925d7 100755
--- a/pyslet/pyslet/odata2/metadata.py
+++ b/pyslet/pyslet/odata2/metadata.py
@@ -24,7 +24,8 @@ class FeedCustomisationMixin:
 		'SyndicationUpdated':[(atom.ATOM_NAMESPACE,"updated")],
 		'SyndicationContributorName':[(atom.ATOM_NAMESPACE,"contributor"),(atom.ATOM_NAMESPACE,"name")],
 		'SyndicationContributorEmail':[(atom.ATOM_NAMESPACE,"contributor"),(atom.ATOM_NAMESPACE,"email")],
-		'SyndicationContributorUri':[(atom.ATOM_NAMESPACE,"source")]
+		'SyndicationContributorUri':[(atom.ATOM_NAMESPACE,"contributor"),(atom.ATOM_NAMESPACE,"uri")],
+		'SyndicationSummary':[(atom.ATOM_NAMESPACE,"summary")]
 		}
 	
 	def GetTargetPath(self):
-- 
2.43.0


From 1cabc815ccf48bf1fc3d9c8dae89080fadcdc93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 200/305] fix: every template reference was an error

---
 pyslet/pyslet/qtiv2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index ba319e2..3afafc8 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -367,6 +367,6 @@ def GetTemplateRef(value):
 	the value does not look like a template variable reference."""
 	if value.startswith('{') and value.endswith('}'):
 		idValue=value[1:-1]
-		if xsi.IsValidNCName(idValue):
+		if xmlns.IsValidNCName(idValue):
 			return idValue
 	return None
-- 
2.43.0


From 8a9791771b43b2686c6b9f1f398b90fc9d22db09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 201/305] fix: equal did not accept the two values of tolerance

---
 pyslet/pyslet/qtiv2/expressions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 173a72a..241a2eb 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -6,7 +6,7 @@ import pyslet.xsdatatypes20041028 as xsi
 import pyslet.qtiv2.core as core
 import pyslet.qtiv2.variables as variables
 
-import string, random, itertools, math
+import string, random, itertools, math, types
 
 
 class Expression(core.QTIElement):
@@ -1056,7 +1056,7 @@ class Equal(NOperator):
 		</xsd:group>"""
 	XMLNAME=(core.IMSQTI_NAMESPACE,'equal')
 	XMLATTR_toleranceMode=('toleranceMode',ToleranceMode.DecodeLowerValue,ToleranceMode.EncodeValue)
-	XMLATTR_tolerance='tolerance'
+	XMLATTR_tolerance=('tolerance',unicode,unicode,types.ListType)
 	XMLATTR_includeLowerBound=('includeLowerBound',xsi.DecodeBoolean,xsi.EncodeBoolean)
 	XMLATTR_includeUpperBound=('includeUpperBound',xsi.DecodeBoolean,xsi.EncodeBoolean)
 	
-- 
2.43.0


From 5b03287a5c587a8dbb832d4f9485450d9c8ef3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 202/305] fix: missing integer and float attributes of
 expressions

---
 pyslet/pyslet/qtiv2/expressions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 241a2eb..433e77c 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -21,6 +21,8 @@ class Expression(core.QTIElement):
 		corresponding integer by looking up the value, if necessary, in
 		*state*.  If value is a variable reference to a variable with NULL
 		value then None is returned."""
+		if value is None:
+			raise core.ProcessingError("%s: missing integer attribute"%self.__class__.__name__)
 		ref=core.GetTemplateRef(value)
 		if ref:
 			if state.IsTemplate(ref):
@@ -39,6 +41,8 @@ class Expression(core.QTIElement):
 		corresponding float by looking up the value, if necessary, in
 		*state*.  If value is a variable reference to a variable with NULL
 		value then None is returned."""
+		if value is None:
+			raise core.ProcessingError("%s: missing float attribute"%self.__class__.__name__)
 		ref=core.GetTemplateRef(value)
 		if ref:
 			if state.IsTemplate(ref):
-- 
2.43.0


From 3319fdddb4d742393e8d62c540a238855020922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 203/305] fix: random numbers with NULL limits or an empty
 range

---
 pyslet/pyslet/qtiv2/expressions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 433e77c..ba82d3e 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -289,6 +289,10 @@ class RandomInteger(Expression):
 		min=self.IntegerOrTemplateRef(state,self.min)
 		max=self.IntegerOrTemplateRef(state,self.max)
 		step=self.IntegerOrTemplateRef(state,self.step)
+		if min is None or max is None or step is None:
+			return variables.IntegerValue()
+		if step<1 or max<min:
+			raise core.ProcessingError("randomInteger: bad range [%i,%i] or step %i"%(min,max,step))
 		return variables.IntegerValue(min+step*random.randint(0,(max-min)//step))
 		
 		
@@ -313,6 +317,10 @@ class RandomFloat(Expression):
 	def Evaluate(self,state):
 		min=self.FloatOrTemplateRef(state,self.min)
 		max=self.FloatOrTemplateRef(state,self.max)
+		if min is None or max is None:
+			return variables.FloatValue()
+		if max<min:
+			raise core.ProcessingError("randomFloat: bad range [%s,%s]"%(repr(min),repr(max)))
 		# strictly speaking, we can never return max, but due to possible rounding
 		# this point is academic
 		return variables.FloatValue(min+random.random()*(max-min))
-- 
2.43.0


From 6535ea6bdc38c9094f2e0c0b31f05a9bb279d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 204/305] fix: containers accepted records as members

---
 pyslet/pyslet/qtiv2/expressions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index ba82d3e..3bd1211 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -373,6 +373,8 @@ class Multiple(NOperator):
 		values=list(self.EvaluateChildren(state))
 		vInput=[]
 		for v in values:
+			if v.Cardinality() not in (variables.Cardinality.single,variables.Cardinality.multiple,None):
+				raise core.ProcessingError("Ordered or Record values not allowed in Mutiple")
 			if v.baseType is None:
 				continue
 			if baseType is None:
@@ -414,6 +416,8 @@ class Ordered(NOperator):
 		values=list(self.EvaluateChildren(state))
 		vInput=[]
 		for v in values:
+			if v.Cardinality() not in (variables.Cardinality.single,variables.Cardinality.ordered,None):
+				raise core.ProcessingError("Multiple or Record values not allowed in Ordered")
 			if v.baseType is None:
 				continue
 			if baseType is None:
-- 
2.43.0


From 511c073de7691319dcd9ce31659fe6a79710b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 205/305] fix: containerSize and fieldValue of NULL without
 cardinality

---
 pyslet/pyslet/qtiv2/expressions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 3bd1211..34c2a3f 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -467,6 +467,8 @@ class ContainerSize(UnaryOperator):
 				return variables.IntegerValue(sum)
 			else:
 				return variables.IntegerValue(0)
+		elif value.Cardinality() is None:
+			return variables.IntegerValue(0)
 		else:			
 			raise core.ProcessingError("Ordered or Multiple value required for containerSize")
 
@@ -556,6 +558,8 @@ class FieldValue(UnaryOperator):
 				return value[self.fieldIdentifier]
 			else:
 				return variables.SingleValue()
+		elif value.Cardinality() is None:
+			return variables.SingleValue()
 		else:
 			# wrong cardinality
 			raise core.ProcessingError("fieldValue requires record value, found %s"%
-- 
2.43.0


From 5fc4e1aa624ba99b339f9ed354ae34591a08e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 206/305] fix: index did not refuse an n less than 1

---
 pyslet/pyslet/qtiv2/expressions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 34c2a3f..201f8df 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -516,12 +516,12 @@ class Index(UnaryOperator):
 
 	def Evaluate(self,state):
 		value=self.Expression.Evaluate(state)
-		if value.Cardinality()==variables.Cardinality.ordered:
+		if self.n is None or self.n<1:
+			raise core.ProcessingError("Index requires n>0, found %s"%repr(self.n))
+		if value.Cardinality() in (variables.Cardinality.ordered,None):
 			result=variables.SingleValue.NewValue(value.baseType)
 			if value:
-				if self.n<1:
-					raise core.ProcessingError("Index requires n>0, found %i"%self.n)
-				elif self.n<=len(value.value):
+				if self.n<=len(value.value):
 					result.SetValue(value.value[self.n-1])
 			return result
 		else:
-- 
2.43.0


From 9b2d6e90d42f8b139011131470b61a191f3248a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 207/305] fix: cardinality checks of member, delete and
 contains

---
 pyslet/pyslet/qtiv2/expressions.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 201f8df..52f8bd3 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -618,6 +618,10 @@ class Member(NOperator):
 		if len(values)!=2:
 			raise core.ProcessingError("Member requires two sub-expressions, found %i"%len(values))
 		singleValue,containerValue=values
+		variables.CheckCardinalities(singleValue.Cardinality(),variables.Cardinality.single)
+		if containerValue.Cardinality() not in (variables.Cardinality.ordered,variables.Cardinality.multiple,None):				
+			raise core.ProcessingError("Expected ordered or multiple value, found %s"%
+				variables.Cardinality.EncodeValue(containerValue.Cardinality()))
 		if singleValue.baseType is None or containerValue.baseType is None:
 			return variables.BooleanValue()
 		if singleValue.baseType!=containerValue.baseType:
@@ -625,16 +629,10 @@ class Member(NOperator):
 		if singleValue.baseType==variables.BaseType.duration:
 			raise core.ProcessingError("Member operator must not be used on duration values")
 		if singleValue and containerValue:
-			if singleValue.Cardinality()!=variables.Cardinality.single:
-				raise core.ProcessingError("Expected single value, found %s"%
-					variables.Cardinality.EncodeValue(singleValue.Cardinality()))
 			if containerValue.Cardinality()==variables.Cardinality.ordered:
 				return variables.BooleanValue(singleValue.value in containerValue.value)
-			elif containerValue.Cardinality()==variables.Cardinality.multiple:
-				return variables.BooleanValue(singleValue.value in containerValue.value.keys())
 			else:
-				raise core.ProcessingError("Expected ordered or multiple value, found %s"%
-					variables.Cardinality.EncodeValue(containerValue.Cardinality()))							
+				return variables.BooleanValue(singleValue.value in containerValue.value.keys())
 		else:
 			return variables.BooleanValue()
 
@@ -658,6 +656,10 @@ class Delete(NOperator):
 		if len(values)!=2:
 			raise core.ProcessingError("Delete requires two sub-expressions, found %i"%len(values))
 		singleValue,containerValue=values
+		variables.CheckCardinalities(singleValue.Cardinality(),variables.Cardinality.single)
+		if containerValue.Cardinality() not in (variables.Cardinality.ordered,variables.Cardinality.multiple,None):				
+			raise core.ProcessingError("Expected ordered or multiple value, found %s"%
+				variables.Cardinality.EncodeValue(containerValue.Cardinality()))
 		if containerValue.baseType is None:
 			return variables.Container.NewValue(containerValue.Cardinality(),singleValue.baseType)
 		elif singleValue.baseType is None:
@@ -666,12 +668,6 @@ class Delete(NOperator):
 			raise core.ProcessingError("Mismatched base types for delete operator")
 		if singleValue.baseType==variables.BaseType.duration:
 			raise core.ProcessingError("Delete operator must not be used on duration values")
-		if singleValue.Cardinality() not in (variables.Cardinality.single,None):
-			raise core.ProcessingError("Expected single value, found %s"%
-				variables.Cardinality.EncodeValue(singleValue.Cardinality()))
-		if containerValue.Cardinality() not in (variables.Cardinality.ordered,variables.Cardinality.multiple,None):				
-			raise core.ProcessingError("Expected ordered or multiple value, found %s"%
-				variables.Cardinality.EncodeValue(containerValue.Cardinality()))
 		result=variables.Container.NewValue(containerValue.Cardinality(),containerValue.baseType)
 		if singleValue and containerValue:
 			# we treat multiple and ordered the same, less efficient as we enumerate all members
@@ -706,6 +702,9 @@ class Contains(NOperator):
 		v1,v2=values
 		baseType=variables.CheckBaseTypes(v1.baseType,v2.baseType)
 		cardinality=variables.CheckCardinalities(v1.Cardinality(),v2.Cardinality())
+		if cardinality not in (variables.Cardinality.ordered,variables.Cardinality.multiple,None):
+			raise core.ProcessingError("Expected ordered or multiple value, found %s"%
+				variables.Cardinality.EncodeValue(cardinality))							
 		if baseType==variables.BaseType.duration:
 			raise core.ProcessingError("Contains operator must not be used on duration values")
 		if cardinality is None or baseType is None:
@@ -725,7 +724,7 @@ class Contains(NOperator):
 					if match:
 						return variables.BooleanValue(True)
 				return variables.BooleanValue(False)
-			elif cardinality==variables.Cardinality.multiple:
+			else:
 				# this is much easier to do
 				match=True
 				for iv1 in v1.value.keys():
@@ -734,9 +733,6 @@ class Contains(NOperator):
 						match=False
 						break
 				return variables.BooleanValue(match)
-			else:
-				raise core.ProcessingError("Expected ordered or multiple value, found %s"%
-					variables.Cardinality.EncodeValue(cardinality))							
 		else:
 			return variables.BooleanValue()
 
-- 
2.43.0


From 02d780d52fe5246d86a0f867e1e2b65b33488efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 208/305] fix: patternMatch against a NULL template variable

---
 pyslet/pyslet/qtiv2/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 52f8bd3..172e18d 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -1006,7 +1006,7 @@ class PatternMatch(UnaryOperator):
 		value=self.Expression.Evaluate(state)
 		variables.CheckBaseTypes(value.baseType,variables.BaseType.string)
 		variables.CheckCardinalities(value.Cardinality(),variables.Cardinality.single)
-		if value:
+		if value and pattern is not None:
 			try:
 				re=xsi.RegularExpression(pattern)
 				return variables.BooleanValue(re.Match(value.value))
-- 
2.43.0


From 4d7e7f72b0430b57b4200f80e65e968f62820692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 209/305] fix: equalRounded with NULL figures, NaN, INF and
 negative zero

---
 pyslet/pyslet/qtiv2/expressions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 172e18d..225bf5e 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -1188,9 +1188,15 @@ class EqualRounded(NOperator):
 			v1v=float(v1.value)
 			v2v=float(v2.value)
 			figures=self.IntegerOrTemplateRef(state,self.figures)
+			if figures is None:
+				return variables.BooleanValue()
+			if math.isnan(v1v) or math.isnan(v2v) or math.isinf(v1v) or math.isinf(v2v):
+				# rounding has no effect on these values
+				return variables.BooleanValue(v1v==v2v)
 			if self.roundingMode==RoundingMode.decimalPlaces:
-				return variables.BooleanValue(xsi.EncodeDecimal(v1v,figures,False)==
-					xsi.EncodeDecimal(v2v,figures,False))
+				# compare the rounded values, not their representation, so that 0 equals -0
+				return variables.BooleanValue(float(xsi.EncodeDecimal(v1v,figures,False))==
+					float(xsi.EncodeDecimal(v2v,figures,False)))
 			else:
 				# for sig fig, we need to use the double form
 				return variables.BooleanValue(xsi.EncodeDouble(v1v,figures-1)==
-- 
2.43.0


From beb973ea5470f5fc453dc4880fbd301522f40b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 210/305] fix: divide and power results out of range

---
 pyslet/pyslet/qtiv2/expressions.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 225bf5e..c37c69a 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -1565,13 +1565,16 @@ class Divide(NOperator):
 		if v1 and v2:
 			v1v=float(v1.value)
 			v2v=float(v2.value)
+			# if [the second value] is zero or the resulting value is
+			# outside the value set defined by float (not including positive
+			# and negative infinity) then the operator should result in NULL
 			try:
-				return variables.FloatValue(v1v/v2v)
+				result=v1v/v2v
 			except ZeroDivisionError:
-				# if [the second value] is zero or the resulting value is
-				# outside the value set defined by float (not including positive
-				# and negative infinity) then the operator should result in NULL
 				return variables.FloatValue()
+			if math.isinf(result):
+				return variables.FloatValue()
+			return variables.FloatValue(result)
 		else:
 			return variables.FloatValue()
 
@@ -1598,13 +1601,16 @@ class Power(NOperator):
 		if v1 and v2:
 			v1v=float(v1.value)
 			v2v=float(v2.value)
+			# If the resulting value is outside the value set defined by
+			# float (not including positive and negative infinity) then the
+			# operator shall result in NULL
 			try:
-				return variables.FloatValue(math.pow(v1v,v2v))
-			except ValueError:
-				# If the resulting value is outside the value set defined by
-				# float (not including positive and negative infinity) then the
-				# operator shall result in NULL
+				result=math.pow(v1v,v2v)
+			except (ValueError,OverflowError,ZeroDivisionError):
+				return variables.FloatValue()
+			if math.isinf(result):
 				return variables.FloatValue()
+			return variables.FloatValue(result)
 		else:
 			return variables.FloatValue()
 
-- 
2.43.0


From 5dd97d8340dbd2c129164a2ba529d3cec8b4e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 211/305] fix: integerDivide, truncate and round results out of
 range

---
 pyslet/pyslet/qtiv2/expressions.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index c37c69a..617c66d 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -1638,7 +1638,8 @@ class IntegerDivide(NOperator):
 		if v1 and v2:
 			try:
 				return variables.IntegerValue(v1.value//v2.value)
-			except ZeroDivisionError:
+			except (ZeroDivisionError,ValueError):
+				# y is zero or the result is outside the value set of integer
 				return variables.IntegerValue()
 		else:
 			return variables.IntegerValue()
@@ -1691,7 +1692,11 @@ class Truncate(UnaryOperator):
 		variables.CheckBaseTypes(value.baseType,variables.BaseType.float)
 		variables.CheckCardinalities(value.Cardinality(),variables.Cardinality.single)
 		if value:
-			return variables.IntegerValue(int(value.value))
+			try:
+				return variables.IntegerValue(int(value.value))
+			except (ValueError,OverflowError):
+				# there is no such integer
+				return variables.IntegerValue()
 		else:
 			return variables.IntegerValue()
 
@@ -1714,7 +1719,14 @@ class Round(UnaryOperator):
 		variables.CheckBaseTypes(value.baseType,variables.BaseType.float)
 		variables.CheckCardinalities(value.Cardinality(),variables.Cardinality.single)
 		if value:
-			return variables.IntegerValue(int(math.floor(value.value+0.5)))
+			try:
+				n=math.floor(value.value)
+				if value.value-n>=0.5:
+					n=n+1
+				return variables.IntegerValue(int(n))
+			except (ValueError,OverflowError):
+				# there is no such integer
+				return variables.IntegerValue()
 		else:
 			return variables.IntegerValue()
 
-- 
2.43.0


From 06d3e48e072da267fe150583890e61ddde117a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 212/305] fix: CopyValue of multiple containers and of NULL

---
 pyslet/pyslet/qtiv2/variables.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 37e2bfe..99a32b2 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -366,8 +366,17 @@ class Value(object):
 	@classmethod
 	def CopyValue(cls,value):
 		"""Creates a new value instance copying *value*."""
+		if value.Cardinality() is None:
+			# can only be a NULL
+			v=value.__class__()
+			v.baseType=value.baseType
+			return v
 		v=cls.NewValue(value.Cardinality(),value.baseType)
-		v.SetValue(value.value)
+		if isinstance(value,MultipleContainer):
+			# values are held as frequencies
+			v.SetValue(value.GetValues())
+		else:
+			v.SetValue(value.value)
 		return v
 
 
-- 
2.43.0


From 7eaf99e580b252c1cbf9b45414bc46911c180237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 213/305] fix: file values could not be created

---
 pyslet/pyslet/qtiv2/variables.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 99a32b2..83fa63b 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -9,7 +9,7 @@ from pyslet.rfc2396  import URI, URIFactory
 import pyslet.qtiv2.core as core
 import pyslet.qtiv2.tests as tests
 
-import os, time, hashlib, types
+import os, time, hashlib, types, StringIO
 import string, itertools
 from types import BooleanType,IntType,LongType,FloatType,StringTypes,DictType,TupleType,ListType
 
@@ -493,13 +493,15 @@ class DirectedPairValue(SingleValue):
 class FileValue(SingleValue):
 	"""Represents single value of type :py:class:`BaseType.file`."""
 	
-	def __init__(self):
+	def __init__(self,value=None):
 		super(FileValue,self).__init__()
 		self.baseType=BaseType.file
 		self.contentType=http.MediaType.FromString("application/octet-stream")
 		"""The content type of the file, a :py:class:`pyslet.rfc2616.HTTPMediaType` instance."""
 		self.fileName="data.bin"
 		"""The file name to use for the file."""
+		if value is not None:
+			self.SetValue(value)
 		
 	def __unicode__(self):
 		if self.value is None:
@@ -507,32 +509,31 @@ class FileValue(SingleValue):
 		else:
 			raise NotImplementedError("String serialization of BaseType.file.")
 
-	def SetValue(self,value,type="application/octet-stream",name="data.bin"):
+	def SetValue(self,value,contentType="application/octet-stream",name="data.bin"):
 		"""Sets a file value from a file like object or a string.
 		
 		There are some important and subtle distinctions in this method.
 		
 		If value is a Unicode text string then it is parsed according to the
 		MIME-like format defined in the QTI specification.  The values of
-		*type* and *name* are only used as defaults if those values cannot
+		*contentType* and *name* are only used as defaults if those values cannot
 		be read from the value's headers.
 		
 		If value is a plain string then it is assumed to represent the file's
-		data directly, *type* and *name* are used to interpret the data.
+		data directly, *contentType* and *name* are used to interpret the data.
 		Other file type objects are set in the same way."""
-		self.contentType=type
-		self.fileName=name
-		if value is None:
-			self.value=None
-		elif type(value) is FileType:
-			self.value=value
-		elif type(value) is StringType:
-			self.value=StringIO.StringIO(value)
-		elif type(value) is UnicodeType:
+		if type(value) is types.UnicodeType:
 			# Parse this value from the MIME stream.
 			raise NotImplementedError("String deserialization of BaseType.file.")
-		else:
+		elif type(value) is types.StringType:
+			value=StringIO.StringIO(value)
+		elif value is not None and not hasattr(value,'read'):
 			self.ValueError(value)
+		if type(contentType) in StringTypes:
+			contentType=http.MediaType.FromString(contentType)
+		self.contentType=contentType
+		self.fileName=name
+		self.value=value
 
 
 class FloatValue(SingleValue):
-- 
2.43.0


From bc0bd6a0fc208c2012c89791e816d7881cc5872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 214/305] fix: text form of float values lost precision

---
 pyslet/pyslet/qtiv2/variables.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 83fa63b..f26a9dd 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -549,7 +549,11 @@ class FloatValue(SingleValue):
 		if self.value is None:
 			return u''
 		else:
-			return xsi.EncodeDouble(self.value)
+			result=xsi.EncodeDouble(self.value)
+			if self.value==self.value and xsi.DecodeDouble(result)!=self.value:
+				# too few figures to identify the value
+				result=repr(self.value)
+			return unicode(result)
 
 	def SetValue(self,value):
 		"""This method will *not* convert integers to float values, you must do
-- 
2.43.0


From 7cb520ee55fe14d9037443500099133615c2f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 215/305] fix: text and range of integer values

---
 pyslet/pyslet/qtiv2/variables.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index f26a9dd..16f3cf1 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -642,16 +642,17 @@ class IntegerValue(SingleValue):
 		-2147483648...2147483647."""
 		if value is None:
 			self.value=None
-		elif type(value) in (IntType,LongType):
-			# python integers may be bigger than 32bits
-			if value<-2147483648 or value > 2147483647:
-				raise ValueError("Integer range: %s"%repr(value))
-			else:
-				self.value=int(value)
-		elif type(value) in StringTypes:
-			self.value=xsi.DecodeInteger(value)
 		else:
-			self.ValueError(value)
+			if type(value) in StringTypes:
+				value=xsi.DecodeInteger(value)
+			if type(value) in (IntType,LongType):
+				# python integers may be bigger than 32bits
+				if value<-2147483648 or value > 2147483647:
+					raise ValueError("Integer range: %s"%repr(value))
+				else:
+					self.value=int(value)
+			else:
+				self.ValueError(value)
 
 		
 class PairValue(DirectedPairValue):
-- 
2.43.0


From e15abd2ecb5d71c7dd870d518fcc6edd0740b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 216/305] fix: text form of containers

---
 pyslet/pyslet/qtiv2/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 16f3cf1..2448f16 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -782,9 +782,9 @@ class Container(Value):
 		
 		We therefore opt for a minimal representation."""
 		if self.baseType is None:
-			return u"%s container of unknown base type"%Cardinality.EncodeValue(self.Cardinality)
+			return u"%s container of unknown base type"%Cardinality.EncodeValue(self.Cardinality())
 		else:
-			return u"%s container of base type %s"%(Cardinality.EncodeValue(self.Cardinality),
+			return u"%s container of base type %s"%(Cardinality.EncodeValue(self.Cardinality()),
 				BaseType.EncodeValue(self.baseType))
 
 	@classmethod
-- 
2.43.0


From 4f136ceb6725aa2856bc444cdd7a0feec0245738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 217/305] fix: containers with NULL members or bad members

---
 pyslet/pyslet/qtiv2/variables.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 2448f16..a28dc82 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -825,7 +825,7 @@ class OrderedContainer(Container):
 			self.value=None
 		else:
 			# assume that value is iterable
-			self.value=[]
+			newValue=[]
 			for v in value:
 				if v is None:
 					# ignore NULLs					
@@ -834,9 +834,9 @@ class OrderedContainer(Container):
 					# wild-card lists only work if they're empty!
 					raise ValueError("Can't create non-empty ordered container without a base type")
 				vAdd=SingleValue.NewValue(self.baseType,v)
-				self.value.append(vAdd.value)
-			if not self.value:
-				self.value=None
+				if vAdd:
+					newValue.append(vAdd.value)
+			self.value=newValue if newValue else None
 	
 	def GetValues(self):
 		"""Returns an iterable of values in the ordered container."""
@@ -868,7 +868,7 @@ class MultipleContainer(Container):
 		if value is None:
 			self.value=None
 		else:
-			self.value={}
+			newValue={}
 			for v in value:
 				if v is None:
 					# ignore NULLs					
@@ -877,9 +877,9 @@ class MultipleContainer(Container):
 					# wild-card lists only work if they're empty!
 					raise ValueError("Can't create non-empty multiple container without a base type")
 				vAdd=SingleValue.NewValue(self.baseType,v)
-				self.value[vAdd.value]=self.value.get(vAdd.value,0)+1
-			if not self.value:
-				self.value=None
+				if vAdd:
+					newValue[vAdd.value]=newValue.get(vAdd.value,0)+1
+			self.value=newValue if newValue else None
 
 	def GetValues(self):
 		"""Returns an iterable of values in the ordered container."""
-- 
2.43.0


From 21d2946788ecd6da6d08fb99eb23d52a4b3b462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 218/305] fix: records and NULL fields

---
 pyslet/pyslet/qtiv2/variables.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index a28dc82..67d6ed2 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -960,23 +960,26 @@ class RecordContainer(Container):
 			r['pi']=FloatValue()     # a NULL value
 			print r['pi']            # raises KeyError"""
 		if value is None:
-			if self.value and fieldIdentifier in self.value:
-				del self.value[fieldIdentifier]
+			if fieldIdentifier in self:
+				del self[fieldIdentifier]
 		elif isinstance(value,SingleValue):
 			if not value:
-				if self.value and fieldIdentifier in self.value:
-					del self.value[fieldIdentifier]
+				if fieldIdentifier in self:
+					del self[fieldIdentifier]
 			else:
 				if self.value is None:
 					self.value={fieldIdentifier:value}
 				else:
 					self.value[fieldIdentifier]=value		
 		else:
-			raise ValueError("Single value required, found %s"%repr(v))	
+			raise ValueError("Single value required, found %s"%repr(value))	
 
 	def __delitem__(self,fieldIdentifier):
 		if self.value:
 			del self.value[fieldIdentifier]
+			if not self.value:
+				# an empty container is NULL
+				self.value=None
 		else:
 			raise KeyError(fieldIdentifier)
 	
-- 
2.43.0


From 1adb141d6edb63fdd0f9b837e8ae2a019a46a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 219/305] fix: the first matching match table entry counts

---
 pyslet/pyslet/qtiv2/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 67d6ed2..4b847ad 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1477,7 +1477,8 @@ class MatchTable(LookupTable):
 		self.map={}
 		for mte in self.MatchTableEntry:
 			v=SingleValue.NewValue(self.baseType,mte.targetValue)
-			self.map[mte.sourceValue]=v.value
+			# the first matching entry is the one that counts
+			self.map.setdefault(mte.sourceValue,v.value)
 					
 	def Lookup(self,value):
 		"""Maps an instance of :py:class:`Value` with integer base type to an
-- 
2.43.0


From fc90ecae46e76bd811698cb4bf7148a461e102b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 220/305] fix: IsTemplate of an undeclared name

---
 pyslet/pyslet/qtiv2/variables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 4b847ad..5acb446 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1661,7 +1661,10 @@ class SessionState(object):
 
 	def IsTemplate(self,varName):
 		"""Return True if *varName* is the name of a template variable."""
-		d=self.GetDeclaration(varName)
+		try:
+			d=self.GetDeclaration(varName)
+		except KeyError:
+			return False
 		return isinstance(d,TemplateDeclaration)
 	
 	def __len__(self):
-- 
2.43.0


From e37a52d9eda97a314bc42d35d3e323c6f192f945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 221/305] fix: equal URIs had different hashes

---
 pyslet/pyslet/rfc2396.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index ae5d344..cc83c00 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -846,6 +846,10 @@ class URI(object):
 		"""Compare this URI against another URI or a string."""
 		return cmp(str(self),str(otherURI))
 
+	def __hash__(self):
+		"""URIs that compare equal have the same hash"""
+		return hash(str(self))
+
 	def Canonicalize(self):
 		"""Returns a canonical form of this URI"""
 		newURI=[]
-- 
2.43.0


From 184eaec238da293fd47c7132498bf4a44958ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 222/305] fix: packages with a file reached twice raised
 NameError

---
 pyslet/pyslet/imscpv1p2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 19dd93b..90cf5e0 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -27,6 +27,7 @@ class CPException(Exception): pass
 class CPFilePathError(Exception): pass
 class CPFileTypeError(Exception): pass
 class CPManifestError(CPException): pass
+class CPPackageBeenThereError(CPException): pass
 class CPProtocolError(CPException): pass
 class CPValidationError(CPException): pass
 class CPZIPBeenThereError(Exception): pass
-- 
2.43.0


From 8d1302af3d7abb61b48d1863a0bd96db4d479983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 223/305] fix: package paths of file elements without href, on
 other hosts or with encoded dots

---
 pyslet/pyslet/imscpv1p2.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 90cf5e0..3f92ba8 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -129,10 +129,16 @@ class File(CPElement):
 		Otherwise, this function calculates an absolute path to the file and
 		then calls the content package's :py:meth:`ContentPackage.PackagePath`
 		method."""
+		if self.href is None:
+			return None
 		url=self.ResolveURI(self.href)
 		if not isinstance(url,uri.FileURL):
 			return None
-		return cp.PackagePath(url.GetVirtualFilePath())
+		try:
+			return cp.PackagePath(url.GetVirtualFilePath())
+		except ValueError:
+			# a file on another host or with a badly encoded name
+			return None
 
 
 class Dependency(CPElement):
@@ -509,6 +515,7 @@ class ContentPackage:
 		Returns None if fPath is not inside the package."""
 		relPath=[]
 		assert isinstance(fPath,vfs.VirtualFilePath)
+		fPath=fPath.normpath()
 		while fPath!=self.dPath:
 			fPath,tail=fPath.split()
 			if not fPath or not tail:
-- 
2.43.0


From 5b0962996844a1c6931beb35c4459cc716363829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 224/305] fix: the wrong one of two equal file or dependency
 elements was deleted

---
 pyslet/pyslet/imscpv1p2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 3f92ba8..44af2d6 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -204,13 +204,13 @@ class Resource(CPElement):
 			yield child
 	
 	def DeleteFile(self,f):
-		index=self.File.index(f)
+		index=map(id,self.File).index(id(f))
 		f.DetachFromDocument()
 		f.parent=None
 		del self.File[index]
 		
 	def DeleteDependency(self,d):
-		index=self.Dependency.index(d)
+		index=map(id,self.Dependency).index(id(d))
 		d.DetachFromDocument()
 		d.parent=None
 		del self.Dependency[index]
-- 
2.43.0


From 052bcf03c912866cd8ad54467451866fa6f918c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 225/305] fix: unique file paths could be in use

---
 pyslet/pyslet/imscpv1p2.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 44af2d6..a358afb 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -631,20 +631,19 @@ class ContentPackage:
 		else:
 			fPath=self.dPath.join(unicode(suggestedPath).lower())
 		fPath=PathInPath(fPath,self.dPath)
-		if fPath is None:
+		if not fPath:
 			raise CPFilePathError(suggestedPath)
 		fPath=fPath.normcase()
 		# Now we can try and make it unique
-		pathStr=fPath
+		newPath=fPath
 		pathExtra=0
-		while pathStr in self.fileTable:
+		while newPath in self.fileTable or self.dPath.join(newPath).exists():
 			if not pathExtra:
 				pathExtra=random.randint(0,0xFFFF)
 			fName,fExt=fPath.splitext()
-			pathStr='%s_%X%s'%(unicode(fName),pathExtra,fExt)
+			newPath=self.dPath.__class__(u'%s_%X%s'%(unicode(fName),pathExtra,unicode(self.dPath.__class__(fExt))))
 			pathExtra=pathExtra+1
-		# we have the path string
-		return self.dPath.__class__(pathStr)
+		return newPath
 	
 	def File(self,resource,href):
 		"""Returns a new :py:class:`File` object attached to *resource*
-- 
2.43.0


From 21da763ed5ac45caca6497dd5080e4042ef40806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 226/305] fix: the manifest could be replaced or deleted as a
 package file

---
 pyslet/pyslet/imscpv1p2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index a358afb..72740d0 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -674,8 +674,8 @@ class ContentPackage:
 			if self.IgnoreFile(unicode(tail)):
 				raise CPFilePathError(fullPath)
 			relPath=PathInPath(fullPath,self.dPath)
-			if relPath is None or unicode(relPath).lower==u'imsmanifest.xml':
-				raise CPFilePathError(url.path)
+			if not relPath or unicode(relPath).lower()==u'imsmanifest.xml':
+				raise CPFilePathError(fullPath)
 			# normalise the case ready to put in the file table
 			relPath=relPath.normcase()
 			f=resource.ChildElement(resource.FileClass)
@@ -754,7 +754,7 @@ class ContentPackage:
 		if self.IgnoreFile(unicode(tail)):
 			raise CPFilePathError(fullPath)
 		relPath=PathInPath(fullPath,self.dPath)
-		if relPath is None or unicode(relPath).lower==u'imsmanifest.xml':
+		if not relPath or unicode(relPath).lower()==u'imsmanifest.xml':
 			raise CPFilePathError(fullPath)
 		# normalise the case ready for comparisons
 		relPath=relPath.normcase()
-- 
2.43.0


From fe4d7e69b8b9f7102ce0050404fe0ea6ecc76c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 227/305] fix: DeleteFile returned its error for non-file URLs

---
 pyslet/pyslet/imscpv1p2.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 72740d0..9815351 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -746,8 +746,12 @@ class ContentPackage:
 		if not isinstance(fURL,uri.FileURL):
 			# We cannot delete non-file objects (though in future
 			# we should support HTTP DELETE)
-			return CPProtocolError(str(fURL))
-		fullPath=fURL.GetVirtualFilePath()
+			raise CPProtocolError(str(fURL))
+		try:
+			fullPath=fURL.GetVirtualFilePath()
+		except ValueError:
+			# a file on another host
+			raise CPProtocolError(str(fURL))
 		if not fullPath.isfile():
 			raise CPFileTypeError(fullPath)
 		head,tail=fullPath.split()
-- 
2.43.0


From 8fae6a9a81c720edc690d1d79cc09548de08f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 228/305] fix: DeleteFile failed when a resource referred to a
 file outside the package

---
 pyslet/pyslet/imscpv1p2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 9815351..35587d7 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -766,7 +766,8 @@ class ContentPackage:
 			delList=[]
 			for f in r.File:
 				# Does f point to the same file?
-				if f.PackagePath(self)==relPath:
+				fPath=f.PackagePath(self)
+				if fPath is not None and fPath==relPath:
 					delList.append(f)
 			for f in delList:
 				r.DeleteFile(f)
-- 
2.43.0


From 46d978dda1998fa161c8324f75a3457f69a5dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 229/305] fix: package names of directories were not strings

---
 pyslet/pyslet/imscpv1p2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 35587d7..9e40364 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -790,7 +790,7 @@ class ContentPackage:
 		if type(self.packageName) is StringType:
 			return unicode(self.packageName,'utf-8')
 		else:
-			return self.packageName
+			return unicode(self.packageName)
 		
 	def Close(self):
 		"""Closes the content package, removing any temporary files.
-- 
2.43.0


From 70abdb8890ffcece80aaf02d104bf5c829e1829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 230/305] fix: setting an XHTML text value kept the previous
 content

---
 pyslet/pyslet/rfc4287.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc4287.py b/pyslet/pyslet/rfc4287.py
index f5cc2c7..e3038af 100644
--- a/pyslet/pyslet/rfc4287.py
+++ b/pyslet/pyslet/rfc4287.py
@@ -89,10 +89,10 @@ class Text(AtomElement):
 			doc=html.XHTMLDocument(baseURI=self.ResolveBase())
 			doc.ReadFromEntity(e)
 			div=list(doc.root.Body.GetChildren())
+			# We remove our existing content
+			self.SetValue(None)
 			if len(div)==1 and isinstance(div[0],html.Div):
 				div=div[0]
-				# We remove our existing content
-				self.SetValue(None)
 				# And do a deep copy of the div instead
 				newDiv=div.Copy(self)
 			else:
-- 
2.43.0


From 8fbea159c9f3de5ed47c9afce23ca93abb1758ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 231/305] fix: XHTML text values were not escaped and included
 the div

---
 pyslet/pyslet/rfc4287.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc4287.py b/pyslet/pyslet/rfc4287.py
index e3038af..be39f34 100644
--- a/pyslet/pyslet/rfc4287.py
+++ b/pyslet/pyslet/rfc4287.py
@@ -122,10 +122,14 @@ class Text(AtomElement):
 			# concatenate all children, but should be just a single div
 			result=[]
 			valueChildren=list(self.GetChildren())
-			if len(valueChildren) and isinstance(valueChildren[0],html.Div):
-				valueChildren=list(valueChildren[0].GetChildren())
+			elements=filter(lambda c:isinstance(c,xml.Element),valueChildren)
+			if len(elements)==1 and elements[0].GetXMLName()==(html.XHTML_NAMESPACE,'div'):
+				valueChildren=list(elements[0].GetChildren())
 			for c in valueChildren:
-				result.append(unicode(c))
+				if isinstance(c,xml.Element):
+					result.append(string.join(c.GenerateXML(tab='',root=True),''))
+				else:
+					result.append(xml.EscapeCharData(c))
 			return string.join(result,'')
 		else:
 			raise ValueError("Unknown text type: %s"%str(self.type))
-- 
2.43.0


From bcb941e50e9b52d094aa8b7447476dc0a6ed8463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 232/305] fix: the value of Atom content was always None

---
 pyslet/pyslet/rfc4287.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc4287.py b/pyslet/pyslet/rfc4287.py
index be39f34..1012aba 100644
--- a/pyslet/pyslet/rfc4287.py
+++ b/pyslet/pyslet/rfc4287.py
@@ -317,7 +317,7 @@ class Content(Text):
 		if type(self.type) in types.StringTypes:
 			raise ValueError("Can't get value of non-text content")
 		else:
-			Text.GetValue(self)
+			return Text.GetValue(self)
 
 
 class URI(AtomElement):
-- 
2.43.0


From e47a23ac38ef0535b596e56242d7c98767bd3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 233/305] fix: resetting Atom entries failed or left children
 attached

---
 pyslet/pyslet/rfc4287.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc4287.py b/pyslet/pyslet/rfc4287.py
index 1012aba..664ff56 100644
--- a/pyslet/pyslet/rfc4287.py
+++ b/pyslet/pyslet/rfc4287.py
@@ -400,7 +400,7 @@ class Entity(AtomElement):
 
 	def Reset(self):
 		for child in itertools.chain(self.Author,self.Category,self.Contributor,self.Link):
-			child.DetachFromParent
+			child.DetachFromParent()
 		self.Author=[]
 		self.Category=[]
 		self.Contributor=[]
@@ -413,7 +413,7 @@ class Entity(AtomElement):
 			self.Title=None
 		if self.Updated:
 			self.Updated.DetachFromParent()
-			self.Update=None
+			self.Updated=None
 		super(Entity,self).Reset()
 		
 	def GetChildren(self):
@@ -502,7 +502,7 @@ class Entry(Entity):
 	def Reset(self):
 		self.AtomId.Reset()
 		if self.Content:
-			self.Content.DetatchFromParent()
+			self.Content.DetachFromParent()
 			self.Content=None
 		if self.Published:
 			self.Published.DetachFromParent()
-- 
2.43.0


From 07d135e25de0ab62d60454cbe9186f7ef8ce9315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 234/305] fix: an empty CONTENT_LENGTH was an error

---
 pyslet/pyslet/rfc5023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index 76075ec..eb0337f 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -194,7 +194,7 @@ class InputWrapper(io.RawIOBase):
 		super(InputWrapper,self).__init__()
 		self.inputStream=environ['wsgi.input']
 		self.inputLength=None
-		if "CONTENT_LENGTH" in environ:
+		if environ.get("CONTENT_LENGTH",''):
 			self.inputLength=int(environ['CONTENT_LENGTH'])
 			if self.inputLength<seekSize:
 				# we can buffer the entire stream
-- 
2.43.0


From ab5c5a190e9f66c4cbacc31a6caa50aa62855f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 235/305] fix: reading past the end of a request body read the
 next request

---
 pyslet/pyslet/rfc5023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index eb0337f..e38b79e 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -233,7 +233,7 @@ class InputWrapper(io.RawIOBase):
 		if n and self.inputStream is not None:
 			if self.inputLength is not None and self.pos+n>self.inputLength:
 				# application should not attempt to read past the CONTENT_LENGTH
-				n=self.inputLength-self.pos
+				n=max(0,self.inputLength-self.pos)
 			iData=self.inputStream.read(n)
 			if len(iData)==0:
 				self.inputStream=None
-- 
2.43.0


From 7f16fbf042591f1f1dc2e6b3d1a77b8c0ff0c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 236/305] fix: seeking forward in a request body counted the
 bytes read twice

---
 pyslet/pyslet/rfc5023.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index e38b79e..13ba1ab 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -273,8 +273,6 @@ class InputWrapper(io.RawIOBase):
 				data=self.read(n)
 				if len(data)==0:
 					break
-				else:
-					self.pos+=len(data)
 		# newPos may be beyond the end of the input stream, that's OK
 		self.pos=newPos
 
-- 
2.43.0


From 5956fc186462fe32e64f32f400d3ea9c27da35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 237/305] fix: iterblocks ignored its maximum size

---
 pyslet/pyslet/rfc5023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index 13ba1ab..8f84d9f 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -345,7 +345,7 @@ class InputWrapper(io.RawIOBase):
 	def iterblocks(self,maxSize=io.DEFAULT_BUFFER_SIZE):
 		"""Returns an iterable of blocks of maximum size *maxSize*"""
 		while True:
-			data=self.read(io.DEFAULT_BUFFER_SIZE)
+			data=self.read(maxSize)
 			if data:
 				yield data
 			else:
-- 
2.43.0


From 259297dcdf5f05539a1949692c4bb67441055d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 238/305] fix: InputWrapper.writelines took no argument

---
 pyslet/pyslet/rfc5023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index 8f84d9f..ad1a966 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -363,7 +363,7 @@ class InputWrapper(io.RawIOBase):
 	def write(self,b):
 		raise IOError("InputWrapper is not writeable")
 					 			
-	def writelines(self):
+	def writelines(self,lines):
 		raise IOError("InputWrapper is not writable")
 				
 	def __iter__(self):
-- 
2.43.0


From 3974240c56abccde89eb24a65c4f504b195d25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 239/305] fix: iterating a request body never ended

---
 pyslet/pyslet/rfc5023.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index ad1a966..5d04456 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -371,6 +371,8 @@ class InputWrapper(io.RawIOBase):
 			line=self.readline()
 			if line:
 				yield line
+			else:
+				break
 
 
 class Server(object):
-- 
2.43.0


From 3a31e420c0b9296a4aadb1ec7be5f7acfe106e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 240/305] fix: copied elements kept the default content of the
 new element

---
 pyslet/pyslet/xml20081126/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index c4a0b26..21cfc5f 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -1977,6 +1977,8 @@ class Element(Node):
 		else:
 			e=self.__class__(None)
 			e.SetXMLName(self.GetXMLName())
+		# as when parsing, discard any default content
+		e.Reset()
 		attrs=self.GetAttributes()
 		for aname in attrs.keys():
 			e.SetAttribute(aname,attrs[aname])
-- 
2.43.0


From 3ea475cfd50a170a9e84f7bb425205114a8bb0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 241/305] fix: simultaneous replays of a launch could both be
 accepted

---
 pyslet/pyslet/imsbltiv1p0.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index 137c0ca..53e647d 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -5,7 +5,7 @@ This is an experimental module and subject to significant change in future
 releases.  Use with caution.
 """
 
-import os, random, string, time
+import os, random, string, threading, time
 
 BLTI_VERSION="LTI-1p0"
 BLTI_LAUNCH_REQUEST="basic-lti-launch-request"
@@ -28,23 +28,25 @@ try:
 		def __init__(self,key,secret):
 			oauth.OAuthConsumer.__init__(self,key,secret)
 			self.nonces=[]
+			self.nonceLock=threading.Lock()
 		
 		def CheckNonce(self,nonce):
 			"""Returns True if the nonce has been checked in the last 90 mins"""
-			now=time.time()
-			old=now-5400.0
-			trim=0
-			for n,t in self.nonces:
-				if t<old:
-					trim=trim+1
-				else:
-					break
-			if trim:
-				self.nonces=self.nonces[trim:]
-			for n,t in self.nonces:
-				if n==nonce:
-					return True
-			self.nonces.append((nonce,now))
+			with self.nonceLock:
+				now=time.time()
+				old=now-5400.0
+				trim=0
+				for n,t in self.nonces:
+					if t<old:
+						trim=trim+1
+					else:
+						break
+				if trim:
+					self.nonces=self.nonces[trim:]
+				for n,t in self.nonces:
+					if n==nonce:
+						return True
+				self.nonces.append((nonce,now))
 	
 	
 	class BLTIToolProvider(oauth.OAuthDataStore):
-- 
2.43.0


From 42bdb74577099f867856c7cbadeb9235a54fd993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 242/305] fix: unsigned launches did not raise
 BLTIAuthenticationError

---
 pyslet/pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index 53e647d..1479ca1 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -15,10 +15,10 @@ class BLTIError(Exception):
 	pass
 	
 class BLTIDuplicateKeyError(BLTIError): pass
-class BLTIOAuthParameterError(BLTIError): pass
 class BLTIAuthenticationError(BLTIError):
 	"""Error raised when a launch request cannot be authorized."""
 	pass
+class BLTIOAuthParameterError(BLTIAuthenticationError): pass
 
 
 try:
-- 
2.43.0


From 81433dcce04e0691a041b34b82487f1bfdf3c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 243/305] fix: generated keys could have fewer bits than asked
 for

---
 pyslet/pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index 1479ca1..23caed7 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -64,7 +64,7 @@ try:
 			separated by '.' to make them easier to read and transcribe into
 			other systems."""
 			key=[]
-			nFours=(keyLength+1)//16
+			nFours=(keyLength+15)//16
 			try:
 				rBytes=os.urandom(nFours*2)
 				for i in xrange(nFours):
-- 
2.43.0


From a63ea44e192f74219779f44560358720d1387b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 244/305] fix: fallback keys were not hexadecimal

---
 pyslet/pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index 23caed7..bfddeb8 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -74,7 +74,7 @@ try:
 				for i in xrange(nFours):
 					four=[]
 					for j in xrange(4):
-						four.append(random.choice('0123456789ABCDEFG'))
+						four.append(random.choice('0123456789ABCDEF'))
 					key.append(string.join(four,''))
 			return string.join(key,'.')
 			
-- 
2.43.0


From e0cc09ccf2c1f82f1e77f1d1c7626b6b75f03f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 245/305] fix: malformed Authorization headers did not raise
 BLTIAuthenticationError

---
 pyslet/pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index bfddeb8..b31b9d2 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -130,8 +130,8 @@ try:
 			BLTIConsumer instance and a dictionary of parameters on success. If
 			the incoming request is not authorized then
 			:class:`BLTIAuthenticationError` is raised."""
-			oauth_request=oauth.OAuthRequest.from_request(command,url,headers=headers,query_string=query_string)
 			try:
+				oauth_request=oauth.OAuthRequest.from_request(command,url,headers=headers,query_string=query_string)
 				if oauth_request:
 					# verify the request has been oauth authorized, copied from verify_request
 					# but we omit the token as BLTI does not use it.
-- 
2.43.0


From 6b7554c5ff9b8d8219fda1c06c215f0703345dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 246/305] fix: malformed timestamps did not raise
 BLTIAuthenticationError

---
 pyslet/pyslet/imsbltiv1p0.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/imsbltiv1p0.py b/pyslet/pyslet/imsbltiv1p0.py
index b31b9d2..72b37a1 100644
--- a/pyslet/pyslet/imsbltiv1p0.py
+++ b/pyslet/pyslet/imsbltiv1p0.py
@@ -145,6 +145,9 @@ try:
 					raise BLTIOAuthParameterError
 			except oauth.OAuthError, err:
 				raise BLTIAuthenticationError(err.message)						
+			except ValueError, err:
+				# the timestamp is not a number
+				raise BLTIAuthenticationError(str(err))
 
 except ImportError:
 	oauth=None
-- 
2.43.0


From c1f2b5329f7b5b3d3642cc419464666ffa58d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 247/305] fix: return the rendered div of a QTI item body

---
 pyslet/pyslet/qtiv2/content.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/qtiv2/content.py b/pyslet/pyslet/qtiv2/content.py
index 741b438..1c72657 100755
--- a/pyslet/pyslet/qtiv2/content.py
+++ b/pyslet/pyslet/qtiv2/content.py
@@ -175,6 +175,7 @@ class ItemBody(BodyElement):
 			htmlDiv=html.Div(None)
 		htmlDiv.styleClass="itemBody"
 		self.RenderHTMLChildren(htmlDiv,profile,itemState)
+		return htmlDiv
 
 
 class FlowContainerMixin:
-- 
2.43.0


From 4a30a67d8d6e1d1ee5037a741c722f4e29193ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 248/305] fix: render a checkbox choice when the response is
 NULL

---
 pyslet/pyslet/qtiv2/interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/interactions.py b/pyslet/pyslet/qtiv2/interactions.py
index 212c95b..340cf69 100755
--- a/pyslet/pyslet/qtiv2/interactions.py
+++ b/pyslet/pyslet/qtiv2/interactions.py
@@ -243,7 +243,7 @@ class SimpleChoice(content.FlowContainerMixin,Choice):
 				htmlInput.type=html.InputType.checkbox
 				htmlInput.name=itemState.formPrefix+interaction.responseIdentifier
 				htmlInput.value=self.identifier
-				htmlInput.checked=(self.identifier in v.value)
+				htmlInput.checked=bool(v) and (self.identifier in v.value)
 			else:
 				# we should be a radio button
 				htmlInput.type=html.InputType.radio
-- 
2.43.0


From a336fa1a7bc24c6b8e753acf8445a074e7dfc5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 249/305] fix: refuse rules that set an undeclared QTI variable
 with ProcessingError

---
 pyslet/pyslet/qtiv2/processing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/processing.py b/pyslet/pyslet/qtiv2/processing.py
index e6d7b76..c57890a 100755
--- a/pyslet/pyslet/qtiv2/processing.py
+++ b/pyslet/pyslet/qtiv2/processing.py
@@ -207,7 +207,7 @@ class SetOutcomeValue(ResponseRule):
 		if self.Expression is None:
 			raise core.ProcessingError("setOutcomeValue with missing expression")
 		value=self.Expression.Evaluate(state)
-		if state.IsOutcome(self.identifier):
+		if self.identifier in state and state.IsOutcome(self.identifier):
 			state[self.identifier]=value
 		else:
 			raise core.ProcessingError("Outcome variable required: %s"%self.identifier)
@@ -458,6 +458,8 @@ class SetCorrectResponse(TemplateRule):
 		if self.Expression is None:
 			raise core.ProcessingError("setCorrectResponse with missing expression")
 		value=self.Expression.Evaluate(state)
+		if self.identifier not in state:
+			raise core.ProcessingError("%s has not been declared"%self.identifier)
 		d=state.GetDeclaration(self.identifier)
 		if isinstance(d,variables.ResponseDeclaration):
 			state[self.identifier+".CORRECT"]=value
@@ -496,6 +498,8 @@ class SetDefaultValue(TemplateRule):
 		if self.Expression is None:
 			raise core.ProcessingError("setDefaultValue with missing expression")
 		value=self.Expression.Evaluate(state)
+		if self.identifier not in state:
+			raise core.ProcessingError("%s has not been declared"%self.identifier)
 		d=state.GetDeclaration(self.identifier)
 		if isinstance(d,variables.ResponseDeclaration) or isinstance(d,variables.OutcomeDeclaration):
 			state[self.identifier+".DEFAULT"]=value
-- 
2.43.0


From 62d07be8c349b467d14d3c649930c843bed5a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 250/305] fix: no slot in a shuffled section for an invisible
 section that contributes nothing

---
 pyslet/pyslet/qtiv2/tests.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index 3d17299..e86905a 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -557,7 +557,10 @@ class TestForm(object):
 					# we raise an error at the moment.  Note that we don't expand
 					# the grand children (unless they are also mixed in from a nested
 					# invisible section)
-					for gChildID in self.Select(child,False):
+					gChildIDs=self.Select(child,False)
+					if not gChildIDs:
+						newSelection.pop()
+					for gChildID in gChildIDs:
 						gChild=self.test.GetPart(gChildID)
 						if gChild.fixed:
 							raise core.SelectionError("Fixed child of invisible section #%s is subject to parent shuffling, use keepTogether to resolve"%child.identifier)
-- 
2.43.0


From b150269aee97480109fd78b686a25008dfcf5350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 251/305] fix: expand sections placed by shuffling in a
 TestForm

---
 pyslet/pyslet/qtiv2/tests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index e86905a..86d9977 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -602,8 +602,8 @@ class TestForm(object):
 				for childID in b:
 					newBucket.append(childID)
 					child=self.test.GetPart(childID)
-					if isinstance(child,AssessmentSection):
-						newBucket.extend(self.Select(childID,True))
+					if isinstance(child,AssessmentSection) and expandChildren:
+						newBucket.extend(self.Select(child,True))
 						newBucket.append(u"-"+childID)	
 				i=selection.index(None)
 				selection[i:i+1]=newBucket
-- 
2.43.0


From 74ce6f53bc18a973757e2bf88f9a9a84e5f67333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 252/305] fix: assigning a multiple container keeps repeated
 values

---
 pyslet/pyslet/qtiv2/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 5acb446..0310b5b 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -869,6 +869,9 @@ class MultipleContainer(Container):
 			self.value=None
 		else:
 			newValue={}
+			if type(value) is DictType:
+				# the value of another multiple container, maps values to their frequency
+				value=itertools.chain(*[itertools.repeat(v,n) for v,n in value.items()])
 			for v in value:
 				if v is None:
 					# ignore NULLs					
-- 
2.43.0


From adb7d6136ee7c12d9376dcb6951844f555a4449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 253/305] fix: bad values submitted to an item session raise
 BadSessionParams

---
 pyslet/pyslet/qtiv2/variables.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 0310b5b..1e4ab8d 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -22,6 +22,10 @@ class SessionKeyExpired(core.QTIError):
 	"""Exception raised when a session is invoked with an expired key."""
 	pass
 
+class BadSessionParams(core.QTIError):
+	"""Raised when the values submitted to a session are not acceptable."""
+	pass
+
 class SessionActionMissing(core.QTIError):
 	"""Exception raised when an unrecognised action is handled by a test session."""
 	
@@ -1830,7 +1834,10 @@ class ItemSessionState(SessionState):
 			if not rName:
 				continue
 			# rName must be the name of a response variable
-			rd=self.GetDeclaration(rName[0])
+			if rName[0] in self:
+				rd=self.GetDeclaration(rName[0])
+			else:
+				rd=None
 			if rd is None or not isinstance(rd,ResponseDeclaration):
 				# unexpected item in bagging area!
 				raise BadSessionParams("Unexpected item submitted wth form: %s"%p)
@@ -1845,16 +1852,16 @@ class ItemSessionState(SessionState):
 			if rd.cardinality==Cardinality.single:
 				# We are expecting a single value from the form
 				if type(sValue) in StringTypes:
-					v.SetValue(sValue)
+					self._SetSaved(v,sValue,p)
 				else:
 					raise BadSessionParams("Unexpected multi-value submission: %s"%p)
 			elif rd.cardinality==Cardinality.multiple:
 				# we are expecting a simple list of values
 				if type(sValue) in StringTypes:
 					# single item list
-					v.SetValue([sValue])
+					self._SetSaved(v,[sValue],p)
 				else:
-					v.SetValue(sValue)
+					self._SetSaved(v,sValue,p)
 			elif rd.cardinality==Cardinality.ordered:
 				# there are two ways of setting these values, either RESPONSE.rank=VALUE
 				# or RESPONSE.VALUE=rank.  The latter representation is only valid for
@@ -1893,9 +1900,13 @@ class ItemSessionState(SessionState):
 				sValue=[]
 				for r in ranks:
 					sValue.append(rParams[r])
-				saveName=response+".SAVED"
-				v=self.map[saveName]
-				v.SetValue(sValue)				
+				self._SetSaved(self.map[saveName],sValue,saveName)
+	
+	def _SetSaved(self,v,sValue,p):
+		try:
+			v.SetValue(sValue)
+		except ValueError:
+			raise BadSessionParams("Bad value in submission for: %s"%p)
 				
 	def EndAttempt(self):
 		"""Called at the end of an attempt.  Invokes response processing if present."""
-- 
2.43.0


From 93ec014f5f5ad32c64472177c3e86860318830f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 254/305] fix: ordered responses submitted to an item session

---
 pyslet/pyslet/qtiv2/variables.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 1e4ab8d..9ee79a6 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1869,11 +1869,9 @@ class ItemSessionState(SessionState):
 				if len(rName)!=2:
 					continue
 				try:
-					if rd.baseType==BaseType.Identifier and core.ValidateIdentifier(rName[1]):
-						if type(sValue) in StringTypes:
-							v.SetValue(sValue)
-						else:
-							raise ValueError
+					if type(sValue) not in StringTypes:
+						raise ValueError
+					if rd.baseType==BaseType.identifier and xmlns.IsValidNCName(rName[1]):
 						rank=xsi.DecodeInteger(sValue)
 						sValue=rName[1]
 					else:
@@ -1893,8 +1891,8 @@ class ItemSessionState(SessionState):
 			# we've gathered ordered parameters in a dictionary of dictionaries
 			# keyed first on response identifier and then on rank.  For each
 			# response we just sort them, so missing ranks are OK.
-			for response in orderedParams:
-				rParams=orderedParams[response]
+			for saveName in orderedParams:
+				rParams=orderedParams[saveName]
 				ranks=rParams.keys()
 				ranks.sort()
 				sValue=[]
-- 
2.43.0


From 794b0cee3c1e98346b83579b0a2c8630569469f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 255/305] fix: session keys differ even when the clock has not
 moved

---
 pyslet/pyslet/qtiv2/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 9ee79a6..31a4727 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2042,7 +2042,7 @@ class TestSessionState(SessionState):
 			self.t=time.time()
 			dt=0.0
 		hash=hashlib.sha224()
-		hash.update(self.salt+"%.6f"%self.t)
+		hash.update(self.salt+"%.6f"%self.t+self.key.encode('ascii'))
 		self.key=unicode(hash.hexdigest())
 		return dt
 		
-- 
2.43.0


From aa2cdb45417c83e5df1c9ef1bf60b43e9e5c7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 256/305] fix: EXIT_SECTION passes over later sub-sections

---
 pyslet/pyslet/qtiv2/variables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 31a4727..ecf6ba0 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2073,6 +2073,7 @@ class TestSessionState(SessionState):
 			return len(self.form)
 		else:
 			qPos=qPos+1
+			depth=0		# the number of sections opened since qPos
 			while True:
 				if qPos>=len(self.form):
 					return qPos
@@ -2082,7 +2083,12 @@ class TestSessionState(SessionState):
 				qPos=qPos+1
 				# handle the other special identifiers which move to the point just
 				# after the end of the part being exited
-				if id[0]==u"-":
+				if id[0]!=u"-":
+					if not isinstance(self.test.GetPart(id),tests.AssessmentItemRef):
+						depth=depth+1
+				elif depth:
+					depth=depth-1
+				else:
 					if target==u"EXIT_SECTION":
 						return qPos
 					elif target==u"EXIT_TESTPART" and isinstance(self.test.GetPart(id[1:]),tests.TestPart):
-- 
2.43.0


From e37b7b7d37145b3c122073f96be336269b36fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 257/305] fix: a failed preCondition skips the whole section or
 test part

---
 pyslet/pyslet/qtiv2/variables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index ecf6ba0..0db1848 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2154,7 +2154,10 @@ class TestSessionState(SessionState):
 						self.cQuestion=iQ
 						break
 				else:
-					# skip this item
+					# skip this item, or the whole of this section or testPart
+					if not isinstance(part,tests.AssessmentItemRef):
+						while self.form[iQ]!=u"-"+id:
+							iQ=iQ+1
 					iQ=iQ+1
 
 			
-- 
2.43.0


From 687b596d6001aeadff26193f22d9b6af92d9bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 258/305] fix: no debugging output when an undeclared test
 variable is looked up

---
 pyslet/pyslet/qtiv2/variables.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 0db1848..da30c2c 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2332,9 +2332,6 @@ class TestSessionState(SessionState):
 				# we can only refer to the first instance when looking up variables
 				ns=self.namespace[nsIndexList[0]]
 				return ns,string.join(splitName[1:],'.')
-		print "Looking for: "+varName
-		print self.namespace
-		print self.form.components
 		raise KeyError(varName)
 			
 	def GetDeclaration(self,varName):
@@ -2391,9 +2388,6 @@ class TestSessionState(SessionState):
 		ns,name=self.GetNamespace(varName)
 		if ns:
 			return ns[name]
-		print "Looking for: "+varName
-		print self.namespace
-		print self.form.components
 		raise KeyError(varName)
 
 	def __iter__(self):
-- 
2.43.0


From 8980f41a4a757978aa4b2bfb99376ab9be51a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:05 +0000
Subject: [PATCH 259/305] fix: built-in item outcomes are outcomes of the test
 session

---
 pyslet/pyslet/qtiv2/variables.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index da30c2c..35cf471 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -2362,6 +2362,15 @@ class TestSessionState(SessionState):
 			# attempt to look up an unsupported namespace
 			raise NotImplementedError
 			
+	def IsOutcome(self,varName):
+		"""Return True if *varName* is the name of an outcome variable,
+		including the built-in outcome of an item."""
+		ns,name=self.GetNamespace(varName)
+		if isinstance(ns,ItemSessionState):
+			return ns.IsOutcome(name)
+		else:
+			return super(TestSessionState,self).IsOutcome(varName)
+			
 	def SetOutcomeDefaults(self):
 		for od in self.test.OutcomeDeclaration:
 			self.namespace[0][od.identifier]=v=od.GetDefaultValue()
-- 
2.43.0


From ada18f9388d1f9427a1e110adc1a079eba3b2278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:20 +0000
Subject: [PATCH 260/305] fix: XML link collections did not give the inline
 count

---
 pyslet/pyslet/odata2/core.py   | 6 ++++--
 pyslet/pyslet/odata2/server.py | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 65d2e9a..5b82259 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -3377,12 +3377,14 @@ class Links(ODataElement):
 	
 	def __init__(self,parent):
 		ODataElement.__init__(self,parent)
+		self.Count=None
 		self.URI=[]
 
 	def GetChildren(self):
-		return itertools.chain(
+		if self.Count: yield self.Count
+		for child in itertools.chain(
 			self.URI,
-			ODataElement.GetChildren(self))
+			ODataElement.GetChildren(self)): yield child
 
 
 class Error(ODataElement):
diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 0066ded..e3d4f8a 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -663,6 +663,8 @@ class Server(app.Server):
 			data=str('{"d":%s}'%string.join(entities.GenerateLinkCollJSON(request.version),''))
 		else:
 			doc=Document(root=Links)
+			if entities.inlineCount:
+				doc.root.ChildElement(Count).SetValue(len(entities))
 			for e in entities.iterpage():
 				child=doc.root.ChildElement(URI)
 				child.SetValue(str(e.GetLocation()))
-- 
2.43.0


From f2e095ec56abc5c6596263edb836ea96fab4cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:27 +0000
Subject: [PATCH 261/305] fix: HTML link types could not be read

---
 pyslet/pyslet/html40_19991224.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index e947734..be9a127 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -207,7 +207,7 @@ class InlineMixin(FlowMixin):
 	pass
 
 
-def ValidateLinkType(self,value):
+def ValidateLinkType(value):
 	"""Link types may not contain white space characters
 	::
 
-- 
2.43.0


From 93a224d459eed77fd52ec5662c7e2b7e0f39e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:27 +0000
Subject: [PATCH 262/305] fix: HTML colors were written as 02X02X02X and their
 names read as black

---
 pyslet/pyslet/html40_19991224.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index be9a127..bd80e2c 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -325,7 +325,13 @@ class Color(object):
 	Fuchsia	= u"#FF00FF"
 	Aqua	= u"#00FFFF"
 	
+	NAMES={'black':Black,'green':Green,'silver':Silver,'lime':Lime,'gray':Gray,'olive':Olive,
+		'white':White,'yellow':Yellow,'maroon':Maroon,'navy':Navy,'red':Red,'blue':Blue,
+		'purple':Purple,'teal':Teal,'fuchsia':Fuchsia,'aqua':Aqua}
+	"""the 16 widely known color names (lower case) and their sRGB values"""
+	
 	def __init__(self,src):
+		src=self.NAMES.get(src.strip().lower(),src)
 		cv=[]
 		base=0;len=0
 		for c in src:
@@ -342,10 +348,10 @@ class Color(object):
 			self.r=self.g=self.b=0
 	
 	def __str__(self):
-		return "#02X02X02X"%(self.r,self.g,self.b)
+		return "#%02X%02X%02X"%(self.r,self.g,self.b)
 
 	def __unicode__(self):
-		return u"#02X02X02X"%(self.r,self.g,self.b)
+		return u"#%02X%02X%02X"%(self.r,self.g,self.b)
 
 
 class BodyColorsMixin(object):
-- 
2.43.0


From ad34f4e9e016e7f26edeab06cd58860bc9e8cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:27 +0000
Subject: [PATCH 263/305] fix: the HTML body colors all shared one value

---
 pyslet/pyslet/html40_19991224.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index bd80e2c..7d2144e 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -365,10 +365,10 @@ class BodyColorsMixin(object):
 		  alink       %Color;        #IMPLIED  -- color of selected links --
 		  ">"""
 	XMLATTR_bgcolor=('bgColor',Color,Color.__unicode__)
-	XMLATTR_text=('bgColor',Color,Color.__unicode__)
-	XMLATTR_link=('bgColor',Color,Color.__unicode__)
-	XMLATTR_vlink=('bgColor',Color,Color.__unicode__)
-	XMLATTR_alink=('bgColor',Color,Color.__unicode__)
+	XMLATTR_text=('text',Color,Color.__unicode__)
+	XMLATTR_link=('link',Color,Color.__unicode__)
+	XMLATTR_vlink=('vLink',Color,Color.__unicode__)
+	XMLATTR_alink=('aLink',Color,Color.__unicode__)
 
 
 """HTML Entities are implemented directly from native python libraries::
-- 
2.43.0


From 3470f5d49e96c1969c41cefdffc52271fde305d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:27 +0000
Subject: [PATCH 264/305] fix: HTML bdo elements could not be created

---
 pyslet/pyslet/html40_19991224.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index 7d2144e..0251334 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -644,7 +644,7 @@ class BDO(CoreAttrsMixin,SpecialMixin,InlineContainer):
 	XMLATTR_dir=('dir',Direction.DecodeLowerValue,Direction.EncodeValue)
 	
 	def __init__(self,parent):
-		super(BDO,self).__init__(self,parent)
+		super(BDO,self).__init__(parent)
 		self.dir=Direction.DEFAULT
 
 
-- 
2.43.0


From 069df98c1596704f7805a0ed9aef79029f515ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 265/305] fix: P in an HTML ADDRESS and AREA in a MAP were lost

---
 pyslet/pyslet/html40_19991224.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index 0251334..5c679bb 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -776,9 +776,9 @@ class Address(AttrsMixin,BlockMixin,InlineContainer):
 
 	def ChildElement(self,childClass,name=None):
 		if childClass is P:
-			return P(self,name)
-		else:
 			return super(XHTMLElement,self).ChildElement(childClass,name)
+		else:
+			return super(Address,self).ChildElement(childClass,name)
 
 
 class FlowContainer(XHTMLElement):
@@ -1210,7 +1210,7 @@ class Map(AttrsMixin,SpecialMixin,BlockContainer):
 
 	def ChildElement(self,childClass,name=None):
 		if childClass is Area:
-			return Area(self,name)
+			return super(XHTMLElement,self).ChildElement(childClass,name)
 		else:
 			return super(Map,self).ChildElement(childClass,name)
 
-- 
2.43.0


From 23fa539b113fbff0dfc6eb5a542713d62f93967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 266/305] fix: white space was added between HTML inline
 elements

---
 pyslet/pyslet/html40_19991224.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index 5c679bb..e31bc7e 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -808,8 +808,8 @@ class FlowContainer(XHTMLElement):
 				for c in child:
 					if not xml.IsS(c):
 						return False
-			#elif isinstance(child,InlineMixin):
-			#	return False
+			elif isinstance(child,InlineMixin):
+				return False
 		return True
 
 
-- 
2.43.0


From 574c111bf992f06d261f0f995f907b3ddda0d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 267/305] fix: the align, hspace and vspace attributes of HTML
 images

---
 pyslet/pyslet/html40_19991224.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index e31bc7e..db305d5 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -1445,10 +1445,10 @@ class Img(AttrsMixin,SpecialMixin,XHTMLElement):
 	XMLATTR_width=('width',LengthType,LengthType.__unicode__)
 	XMLATTR_usemap=('usemap',DecodeURI,EncodeURI)
 	XMLATTR_ismap=('ismap',IsMap.DecodeLowerValue,IsMap.EncodeValue)
-	XMLATTR_align=('align',Align.DecodeLowerValue,Align.EncodeValue)
+	XMLATTR_align=('align',IAlign.DecodeLowerValue,IAlign.EncodeValue)
 	XMLATTR_border=('border',xsi.DecodeInteger,xsi.EncodeInteger)
-	XMLATTR_border=('hspace',xsi.DecodeInteger,xsi.EncodeInteger)
-	XMLATTR_border=('vspace',xsi.DecodeInteger,xsi.EncodeInteger)
+	XMLATTR_hspace=('hspace',xsi.DecodeInteger,xsi.EncodeInteger)
+	XMLATTR_vspace=('vspace',xsi.DecodeInteger,xsi.EncodeInteger)
 	XMLCONTENT=xmlns.ElementType.Empty
 	
 	def __init__(self,parent):
-- 
2.43.0


From 4d611cb4d0fbef4c327c1939fb80027f86df926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 268/305] fix: HTML ins and del ended the paragraph or list
 they were in

---
 pyslet/pyslet/html40_19991224.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index db305d5..77ffcd4 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -1480,7 +1480,7 @@ class HR(BlockMixin,XHTMLElement):
 	XMLNAME=(XHTML_NAMESPACE,'hr')
 	XMLCONTENT=xmlns.ElementType.Empty
 
-class Ins(AttrsMixin,FlowContainer):
+class Ins(AttrsMixin,InlineMixin,FlowContainer):
 	"""Represents the INS element::
 	
 	<!-- INS/DEL are handled by inclusion on BODY -->
@@ -1497,7 +1497,7 @@ class Ins(AttrsMixin,FlowContainer):
 	XMLCONTENT=xmlns.XMLMixedContent
 
 
-class Del(FlowContainer):
+class Del(AttrsMixin,InlineMixin,FlowContainer):
 	"""Represents the DEL element::
 	
 	<!-- INS/DEL are handled by inclusion on BODY -->
-- 
2.43.0


From 40859873c1ff844a2e0a7e5dcc1fb285e970eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 269/305] fix: white space in HTML pre, textarea, script and
 style was not preserved

---
 pyslet/pyslet/html40_19991224.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index 77ffcd4..fa9c3ba 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -1590,6 +1590,14 @@ class Pre(BlockMixin,InlineContainer):
 	XMLNAME=(XHTML_NAMESPACE,'pre')
 	XMLCONTENT=xmlns.XMLMixedContent
 
+	def GetSpace(self):
+		"""White space is preserved, by definition."""
+		space=InlineContainer.GetSpace(self)
+		if space is None:
+			return 'preserve'
+		else:
+			return space
+
 	def PrettyPrint(self):
 		return False
 
@@ -1908,6 +1916,18 @@ class TextArea(FormCtrlMixin,XHTMLElement):
 	XMLNAME=(XHTML_NAMESPACE,'textarea')
 	XMLCONTENT=xmlns.XMLMixedContent
 
+	def GetSpace(self):
+		"""White space is part of the value of the text field."""
+		space=XHTMLElement.GetSpace(self)
+		if space is None:
+			return 'preserve'
+		else:
+			return space
+
+	def GetChildClass(self,stagClass):
+		"""Only data is allowed, anything else implies the end tag."""
+		return None
+
 
 class FieldSet(AttrsMixin,BlockMixin,FlowContainer):
 	"""fieldset element::
@@ -2387,6 +2407,7 @@ class Style(I18nMixin,HeadMiscMixin,XHTMLElement):
 	XMLATTR_title='title'
 	XMLCONTENT=xmlns.XMLMixedContent
 	SGMLCONTENT=xmlns.SGMLCDATA
+	SGMLCDATA=True
 
 	def __init__(self,parent):
 		XHTMLElement.__init__(self,parent)
@@ -2409,6 +2430,7 @@ class Script(SpecialMixin,HeadMiscMixin,XHTMLElement):
 	XMLNAME=(XHTML_NAMESPACE,'script')
 	XMLCONTENT=xmlns.XMLMixedContent
 	SGMLCONTENT=xmlns.SGMLCDATA
+	SGMLCDATA=True
 	
 class NoScript(BlockMixin,FlowContainer):
 	"""Represents the noscript element::
-- 
2.43.0


From 7607079e84ccea490de1a020c0291e6f57d0c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 270/305] fix: HTML options were nested when their end tags
 were omitted

---
 pyslet/pyslet/html40_19991224.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index fa9c3ba..4419f25 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -1840,6 +1840,13 @@ class Select(AttrsMixin,FormCtrlMixin,XHTMLElement):
 		XHTMLElement.__init__(self,parent)
 		self.options=[]
 	
+	def GetChildClass(self,stagClass):
+		"""Anything other than an option, or a group of them, implies the end tag."""
+		if stagClass and (issubclass(stagClass,(OptGroup,Option)) or not issubclass(stagClass,XHTMLMixin)):
+			return stagClass
+		else:
+			return None
+
 	def OptGroup(self):
 		child=OptGroup(self)
 		self.options.append(child)
@@ -1873,6 +1880,13 @@ class OptGroup(AttrsMixin,XHTMLElement):
 		self.label=''
 		self.Option=[]
 	
+	def GetChildClass(self,stagClass):
+		"""Anything other than an option implies the end tag."""
+		if stagClass and (issubclass(stagClass,Option) or not issubclass(stagClass,XHTMLMixin)):
+			return stagClass
+		else:
+			return None
+
 	def GetChildren(self):
 		return iter(self.Option)
 
@@ -1892,6 +1906,10 @@ class Option(XHTMLElement):
 	XMLNAME=(XHTML_NAMESPACE,'option')
 	XMLCONTENT=xmlns.XMLMixedContent
 
+	def GetChildClass(self,stagClass):
+		"""End tag can be omitted."""
+		return None
+
 
 class TextArea(FormCtrlMixin,XHTMLElement):
 	"""TextArea element::
@@ -2360,6 +2378,10 @@ class Title(I18nMixin,HeadContentMixin,XHTMLElement):
 	XMLNAME=(XHTML_NAMESPACE,'title')
 	XMLCONTENT=xmlns.XMLMixedContent
 
+	def GetChildClass(self,stagClass):
+		"""Only data is allowed, anything else implies the end tag."""
+		return None
+
 
 class Meta(I18nMixin,HeadMiscMixin,XHTMLElement):
 	"""Represents the meta element::
-- 
2.43.0


From 6eebec5181f7cccfa8acfc89143d30582616ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 271/305] fix: data in an HTML fieldset was moved out of it

---
 pyslet/pyslet/html40_19991224.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index 4419f25..19ab4f3 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -1956,7 +1956,7 @@ class FieldSet(AttrsMixin,BlockMixin,FlowContainer):
 	  >
 	"""
 	XMLNAME=(XHTML_NAMESPACE,'fieldset')
-	XMLCONTENT=xmlns.ElementType.ElementContent
+	XMLCONTENT=xmlns.XMLMixedContent
 
 	def __init__(self,parent):
 		FlowContainer.__init__(self,parent)
-- 
2.43.0


From a15862dfdff2e3b5dad0d738d5665d94bfc866c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 272/305] fix: HTML col elements were accepted outside tables

---
 pyslet/pyslet/html40_19991224.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index 19ab4f3..28b87c8 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -2166,7 +2166,7 @@ class ColGroup(XHTMLElement):
 			return None
 
 	
-class Col(BlockMixin,XHTMLElement):
+class Col(XHTMLElement):
 	# <!ELEMENT COL      - O EMPTY           -- table column -->
 	XMLNAME=(XHTML_NAMESPACE,'col')
 	XMLCONTENT=xmlns.ElementType.Empty
-- 
2.43.0


From c5f423be08f53c66b1bdafc5262dedffe4fb4217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 273/305] fix: HTML names depended on case and short attributes
 lost the next one

---
 pyslet/pyslet/html40_19991224.py    | 51 +++++++++++++++++++++++++++++
 pyslet/pyslet/xml20081126/parser.py |  4 +--
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index 28b87c8..5a0f46d 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -2517,6 +2517,56 @@ class HTMLParser(xmlns.XMLNSParser):
 		xmlns.XMLNSParser.__init__(self,entity)
 		self.xmlFlag=xmlHint
 		"""A flag that indicates if the parser is in xml mode."""
+
+	def FoldName(self,name,ns):
+		"""Returns *name* in lower case if it is the name of an HTML element
+		and False otherwise.
+		
+		*ns* is any default namespace declared with the tag, or None."""
+		if ns is None:
+			ns=self.ExpandQName(name,{})[0]
+		lcName=name.lower()
+		if ns in (None,XHTML_NAMESPACE) and (XHTML_NAMESPACE,lcName) in XHTMLDocument.classMap:
+			return lcName
+		else:
+			return False
+				
+	def ParseSTag(self):
+		"""[40] STag: the names of HTML elements and their attributes are not
+		case sensitive."""
+		name,attrs,empty=xmlns.XMLNSParser.ParseSTag(self)
+		if self.sgmlNamecaseGeneral:
+			lcName=self.FoldName(name,attrs.get('xmlns',None))
+			if lcName:
+				name=lcName
+				for aName in attrs.keys():
+					lcName=aName.lower()
+					if lcName!=aName and not ':' in aName:
+						value=attrs.pop(aName)
+						attrs.setdefault(lcName,value)
+		return name,attrs,empty
+
+	def ParseAttribute(self):
+		"""[41] Attribute: a name on its own, as in <option selected>, is the
+		short form of a boolean attribute."""
+		name,value=xmlns.XMLNSParser.ParseAttribute(self)
+		if name[0]=='@':
+			return name[1:],value.lower()
+		else:
+			return name,value
+	
+	def ParseETag(self,gotLiteral=False):
+		"""[42] ETag: the names of HTML elements are not case sensitive."""
+		name=xmlns.XMLNSParser.ParseETag(self,gotLiteral)
+		if self.sgmlNamecaseGeneral:
+			return self.FoldName(name,None) or name
+		else:
+			return name
+
+	def MatchXMLName(self,element,qname):
+		if self.sgmlNamecaseGeneral:
+			qname=self.FoldName(qname,None) or qname
+		return xmlns.XMLNSParser.MatchXMLName(self,element,qname)
 		
 	def LookupPredefinedEntity(self,name):
 		codepoint=htmlentitydefs.name2codepoint.get(name,None)
@@ -2537,6 +2587,7 @@ class HTMLParser(xmlns.XMLNSParser):
 			self.declaration=None
 			self.sgmlNamecaseGeneral=True
 			self.sgmlOmittag=True
+			self.sgmlShorttag=True
 			self.sgmlContent=True
 			self.dontCheckWellFormedness=True
 		self.entity.KeepEncoding()
diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index fa2cf14..0500007 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1371,9 +1371,9 @@ class XMLParser:
 						break
 					self.ParseRequiredLiteral('</',"SGML CDATA Content:")
 					endName=self.ParseName()
-					if endName!=name:
+					if endName is None or not self.MatchXMLName(self.element,endName):
 						# but this is such a common error we ignore it
-						self.element.AddData('</'+endName)
+						self.element.AddData('</'+(endName or ''))
 					else:
 						self.ParseS()
 						self.ParseRequiredLiteral('>',"SGML CDATA ETag")
-- 
2.43.0


From 1f3c6b364f5a17df343050bb42d255165e061df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 274/305] fix: an HTML doctype with just a public identifier
 could not be read

---
 pyslet/pyslet/xml20081126/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 0500007..0a1063d 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1140,7 +1140,7 @@ class XMLParser:
 		if self.ParseS():
 			# could be an ExternalID
 			if self.theChar!='[' and self.theChar!='>':
-				self.dtd.externalID=self.ParseExternalID()
+				self.dtd.externalID=self.ParseExternalID(self.dontCheckWellFormedness)
 				self.ParseS()
 		if self.ParseLiteral('['):
 			# If there is no externalID we treat as standalone (until a PE ref)
-- 
2.43.0


From f6d69f5276d8ccee2b304ec77d3d8f645b4a5b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 275/305] fix: HTML end tags of implied elements closed
 enclosing ones

---
 pyslet/pyslet/xml20081126/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 0a1063d..98f38d0 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1299,6 +1299,7 @@ class XMLParser:
 		saveElement=self.element
 		saveElementType=self.elementType
 		saveCursor=None
+		implied=False
 		sEntity=self.entity
 		if self.sgmlOmittag and self.theChar!='<':
 			# Leading data means the start tag was omitted (perhaps at the start of the doc)
@@ -1335,6 +1336,8 @@ class XMLParser:
 				# omitted start tags introduce elements that have no attributes and must not be empty
 				attrs={}
 				empty=False
+				# and name is not the name of the element
+				implied=True
 		else:
 			# this start tag indicates an omitted end tag: always buffered
 			if name:
@@ -1382,7 +1385,7 @@ class XMLParser:
 				while self.ParseContent():		# otherwise content detected end of element (so end tag was omitted)
 					self.CheckEntityNesting(sEntity)
 					endName=self.ParseETag()
-					if endName==name:
+					if endName==name and not implied:
 						break
 					spuriousTag=True
 					if self.sgmlOmittag:
@@ -1396,8 +1399,9 @@ class XMLParser:
 						while isinstance(iElement,Element):
 							if self.MatchXMLName(iElement,endName):
 								spuriousTag=False
-								# push a closing tag back onto the parser
-								self.BuffText('</%s>'%endName)
+								if iElement is not self.element:
+									# push a closing tag back onto the parser
+									self.BuffText('</%s>'%endName)
 								break
 							else:
 								iElement=iElement.parent
-- 
2.43.0


From 467e376a5b92cc95bab9cbff4370eb97845c26ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 276/305] fix: returning to the HTML body lost its content

---
 pyslet/pyslet/xml20081126/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 98f38d0..b4dbcb8 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1348,7 +1348,10 @@ class XMLParser:
 			self.element=self.doc.ChildElement(elementClass,elementName)
 		else:
 			self.element=self.element.ChildElement(elementClass,elementName)
-		self.element.Reset()
+		if not self.sgmlOmittag:
+			# in SGML-like mode the tags that imply an element may force us to
+			# return to it, we must not lose the content we already have
+			self.element.Reset()
 		if self.sgmlContent and getattr(elementClass,'XMLCONTENT',XMLMixedContent)==XMLEmpty:
 			empty=True
 		for attr in attrs.keys():
-- 
2.43.0


From e59d0849736b84edcf8b0d240827890bcab42359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 277/305] fix: endless loop over a reference where HTML allows
 no data

---
 pyslet/pyslet/xml20081126/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index b4dbcb8..06f4e3d 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1726,7 +1726,8 @@ class XMLParser:
 						if self.sgmlOmittag and not self.element.IsMixed():
 							# CDATA can only be put in elements that can contain data!
 							self.BuffText('<![CDATA[')
-							self.UnhandledData('')
+							if not self.UnhandledData(''):
+								return False
 						else:
 							self.ParseCDSect(True)
 					else:
@@ -1753,7 +1754,8 @@ class XMLParser:
 					# we step in before resolving the reference, just in case
 					# this reference results in white space that is supposed
 					# to be the first data character after the omitted tag.
-					self.UnhandledData('')
+					if not self.UnhandledData(''):
+						return False
 				else:					
 					data=self.ParseReference()
 					if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
-- 
2.43.0


From 0e90fcfbb18570fa87241ca25b88b4f322789b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 278/305] fix: an unescaped ampersand in HTML lost the name
 following it

---
 pyslet/pyslet/xml20081126/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 06f4e3d..6368bdd 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -2467,8 +2467,10 @@ class XMLParser:
 				return '&'
 		else:
 			name=self.ParseRequiredName(production)
+		terminator=';'
 		if self.dontCheckWellFormedness:
-			self.ParseLiteral(';')
+			if not self.ParseLiteral(terminator):
+				terminator=''
 		else:
 			if self.refMode!=XMLParser.RefModeInEntityValue:
 				self.CheckEntityNesting(entity)
@@ -2503,6 +2505,9 @@ class XMLParser:
 						e.Open()
 						self.PushEntity(e)
 					return ''
+				elif self.dontCheckWellFormedness:
+					# an unescaped & followed by something that looks like a name
+					return '&%s%s'%(name,terminator)
 				elif self.Standalone():
 					self.WellFormednessError("Entity Declared: undeclared general entity %s in standalone document"%name)
 				else:
-- 
2.43.0


From 38c1ce7d74b7ee5609224ffbb12a7fa1c42ccfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:21 +0000
Subject: [PATCH 279/305] fix: QTI v1 constructs that are not supported failed
 with NameError

---
 pyslet/pyslet/qtiv1/common.py | 38 +++++++++++++++++------------------
 pyslet/pyslet/qtiv1/core.py   |  2 +-
 pyslet/pyslet/qtiv1/item.py   | 28 +++++++++++++-------------
 3 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 57063c3..e257414 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -343,7 +343,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					self.matChildren=list(div.GetChildren())
 		elif self.texttype=='text/rtf':
 			# parse the RTF content
-			raise QTIUnimplementedError
+			raise core.QTIUnimplementedError
 
 	def IsInline(self):
 		if self.texttype=='text/plain':
@@ -357,7 +357,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					return False
 			return True
 		else:
-			raise QTIUnimplementedError(self.texttype)
+			raise core.QTIUnimplementedError(self.texttype)
 			
 	def ExtractText(self):
 		if self.matChildren:
@@ -451,7 +451,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 						newChild=child.Copy(addNode)
 						qtiv2.content.FixHTMLNamespace(newChild)
 		else:
-			raise QTIUnimplementedError
+			raise core.QTIUnimplementedError
 
 
 class MatEmText(MatText):
@@ -548,7 +548,7 @@ class MatImage(core.QTIElement,PositionMixin,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline images")
+			raise core.QTIUnimplementedError("inclusion of inline images")
 		if childType is html.BlockMixin:
 			# We must wrap this img in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -599,7 +599,7 @@ class MatAudio(core.QTIElement,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline audio")
+			raise core.QTIUnimplementedError("inclusion of inline audio")
 		if childType is html.BlockMixin:
 			# We must wrap this object in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -651,7 +651,7 @@ class MatVideo(core.QTIElement,PositionMixin,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline video")
+			raise core.QTIUnimplementedError("inclusion of inline video")
 		if childType is html.BlockMixin:
 			# We must wrap this object in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -701,7 +701,7 @@ class MatApplet(core.QTIElement,PositionMixin,MatThingMixin):
 		return "[applet]"
 
 	def MigrateV2Content(self,parent,childType,log):
-		raise QTIUnimplementedError("matapplet")
+		raise core.QTIUnimplementedError("matapplet")
 
 
 class MatApplication(core.QTIElement,MatThingMixin):
@@ -741,7 +741,7 @@ class MatApplication(core.QTIElement,MatThingMixin):
 		return "[application]"
 
 	def MigrateV2Content(self,parent,childType,log):
-		raise QTIUnimplementedError("matapplication")
+		raise core.QTIUnimplementedError("matapplication")
 
 
 class MatRef(MatThingMixin,core.QTIElement):
@@ -1177,12 +1177,12 @@ class SetVar(core.QTIElement):
 		identifier=qtiv2.core.ValidateIdentifier(self.varName)
 		outcome=v2Item.declarations.get(identifier,None)
 		if outcome is None:
-			raise QTIUnimplementedError("Auto-declared outcomes")
+			raise core.QTIUnimplementedError("Auto-declared outcomes")
 		setValue=parent.ChildElement(qtiv2.processing.SetOutcomeValue)
 		setValue.identifier=identifier
 		if outcome.cardinality!=qtiv2.variables.Cardinality.single:
-			raise QTIUnimplementedError("setvar for '%s' with cardinality %s"%(identifier,
-				qtiv2.variables.Cardinality.encode[outcome.cardinality]))
+			raise core.QTIUnimplementedError("setvar for '%s' with cardinality %s"%(identifier,
+				qtiv2.variables.Cardinality.EncodeValue(outcome.cardinality)))
 		value=None
 		variable=None
 		if not self.action or self.action==core.Action.Set:
@@ -1276,7 +1276,7 @@ class ExtendableExpressionMixin:
 	"""Abstract mixin class to indicate an expression, including var_extension"""
 
 	def MigrateV2Expression(self,parent,log):
-		raise QTIUnimplementedError("Expression element: %s"%self.__class__.__name__)
+		raise core.QTIUnimplementedError("Expression element: %s"%self.__class__.__name__)
 
 	
 class ExpressionMixin(ExtendableExpressionMixin):
@@ -1366,7 +1366,7 @@ class VarEqual(VarThing):
 				log.append("Warning: equality operator with float values is deprecated")
 				expression=parent.ChildElement(qtiv2.expressions.Equal)
 			else:
-				raise QTIUnimplementedOperator("varequal(%s)"%qtiv2.variables.BaseType.Encode(d.baseType))
+				raise core.QTIUnimplementedError("varequal(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 			self.MigrateV2Variable(d,expression,log)
 			self.MigrateV2Value(d,expression,log)
 		else:
@@ -1380,7 +1380,7 @@ class VarEqual(VarThing):
 			elif d.baseType==qtiv2.variables.BaseType.float:
 				log.append("Warning: member operation is deprecated when baseType is float")
 			else:
-				raise QTIUnimplementedOperator("varequal(%s)"%qtiv2.variables.BaseType.Encode(d.baseType))
+				raise core.QTIUnimplementedError("varequal(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 			expression=parent.ChildElement(qtiv2.expressions.Member)
 			self.MigrateV2Value(d,expression,log)
 			self.MigrateV2Variable(d,expression,log)
@@ -1391,7 +1391,7 @@ class VarInequality(VarThing):
 
 	def MigrateV2Inequality(self):
 		"""Returns the class to use in qtiv2"""
-		raise QTIUnimplementedOperator(self.xmlname)
+		raise core.QTIUnimplementedError(self.xmlname)
 		
 	def MigrateV2Expression(self,parent,log):
 		v2Item=parent.FindParent(qtiv2.items.AssessmentItem)
@@ -1404,11 +1404,11 @@ class VarInequality(VarThing):
 			if d.baseType==qtiv2.variables.BaseType.integer or d.baseType==qtiv2.variables.BaseType.float:
 				expression=parent.ChildElement(self.MigrateV2Inequality())
 			else:
-				raise QTIUnimplementedOperator("%s(%s)"%(self.xmlname,qtiv2.variables.BaseType.Encode(d.baseType)))
+				raise core.QTIUnimplementedError("%s(%s)"%(self.xmlname,qtiv2.variables.BaseType.EncodeValue(d.baseType)))
 			self.MigrateV2Variable(d,expression,log)
 			self.MigrateV2Value(d,expression,log)
 		else:
-			raise QTIUnimplementedOperator("%s(%s:%s)"%(self.xmlname,qtiv2.variables.Cardinality.Encode(d.cardinality),qtiv2.variables.BaseType.Encode(d.baseType)))
+			raise core.QTIUnimplementedError("%s(%s:%s)"%(self.xmlname,qtiv2.variables.Cardinality.EncodeValue(d.cardinality),qtiv2.variables.BaseType.EncodeValue(d.baseType)))
 
 	
 class VarLT(VarInequality):
@@ -1533,9 +1533,9 @@ class VarInside(VarThing):
 				expression.shape,expression.coords=core.MigrateV2AreaCoords(self.areaType,self.GetValue(),log)
 				self.MigrateV2Variable(d,expression,log)			
 			else:
-				raise QTIUnimplementedError("varinside(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
+				raise core.QTIUnimplementedError("varinside(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 		else:
-			raise QTIUnimplementedError("varinside with multiple/orderd variable")
+			raise core.QTIUnimplementedError("varinside with multiple/orderd variable")
 
 
 class DurEqual(core.QTIElement,ExpressionMixin):
diff --git a/pyslet/pyslet/qtiv1/core.py b/pyslet/pyslet/qtiv1/core.py
index 7793c9c..8efee58 100755
--- a/pyslet/pyslet/qtiv1/core.py
+++ b/pyslet/pyslet/qtiv1/core.py
@@ -164,7 +164,7 @@ def MigrateV2AreaCoords(area,value,log):
 		coords=[coords[0],coords[1],coords[0]+coords[3]-1,coords[1]+coords[2]-1]
 	elif area==Area.Ellipse:
 		if len(coords)<4:
-			if len(corrds)<2:
+			if len(coords)<2:
 				log.append("Error: not enough coordinates to locate ellipse, padding with zero")
 				while len(coords)<2:
 					coords.append(0)
diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 62c0b3c..40b46e3 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -925,14 +925,14 @@ class ResponseThing(Response):
 
 	def GetBaseType(self,interaction):
 		"""Returns the base type to use for the given interaction."""
-		raise QTIUnimplementedError("BaseType selection for %s"%self.__class__.__name__)
+		raise core.QTIUnimplementedError("BaseType selection for %s"%self.__class__.__name__)
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.inlinePrompt:
 			interactionPrompt=self.prompt
 		else:
 			if childType is html.InlineMixin:
-				raise QTIError("Unexpected attempt to inline interaction")
+				raise core.QTIError("Unexpected attempt to inline interaction")
 			interactionPrompt=None
 			if isinstance(self.render,RenderHotspot):
 				div=parent.ChildElement(html.Div,(qtiv2.core.IMSQTI_NAMESPACE,'div'))
@@ -1031,7 +1031,7 @@ class ResponseXY(ResponseThing):
 		if isinstance(interaction,qtiv2.interactions.SelectPointInteraction):
 			return qtiv2.variables.BaseType.point
 		else:
-			return ResponseThing.GetBaseType(self)
+			return ResponseThing.GetBaseType(self,interaction)
 
 
 class ResponseStr(ResponseThing):
@@ -1148,7 +1148,7 @@ class RenderThing(Render):
 		return True
 
 	def MigrateV2Interaction(self,parent,childType,prompt,log):
-		raise QTIUnimplementedError("%s x %s"%(self.parent.__class__.__name__,self.__class__.__name__))
+		raise core.QTIUnimplementedError("%s x %s"%(self.parent.__class__.__name__,self.__class__.__name__))
 		
 	def MigrateV2InteractionDefault(self,parent,interaction):
 		# Most interactions do not need default values.
@@ -1187,13 +1187,13 @@ class RenderChoice(RenderThing):
 		interaction=None
 		if isinstance(self.parent,ResponseLId):
 			if childType is html.InlineMixin:
-				raise QTIError("Unexpected attempt to put block interaction in inline context")
+				raise core.QTIError("Unexpected attempt to put block interaction in inline context")
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError("OrderInteraction")
+				raise core.QTIUnimplementedError("OrderInteraction")
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.ChoiceInteraction)
 		else:		
-			raise QTIUnimplementedError("%s x render_choice"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_choice"%self.parent.__class__.__name__)
 		if prompt:
 			interactionPrompt=interaction.ChildElement(qtiv2.interactions.Prompt)
 			for child in prompt:
@@ -1241,16 +1241,16 @@ class RenderHotspot(RenderThing):
 		interaction=None
 		if isinstance(self.parent,ResponseLId):
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError("GraphicOrderInteraction")
+				raise core.QTIUnimplementedError("GraphicOrderInteraction")
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.HotspotInteraction)
 		elif isinstance(self.parent,ResponseXY):
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError('response_xy x render_hotspot')
+				raise core.QTIUnimplementedError('response_xy x render_hotspot')
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.SelectPointInteraction)
 		else:
-			raise QTIUnimplementedError("%s x render_hotspot"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_hotspot"%self.parent.__class__.__name__)
 		if self.showDraw:
 			log.append('Warning: ignoring showdraw="Yes", what did you really want to happen?')
 		if self.minNumber is not None:
@@ -1525,7 +1525,7 @@ class RenderSlider(RenderThing):
 				interaction.maxChoices=1
 			elif self.parent.rCardinality==core.RCardinality.Ordered:
 				log.append("Error: ordered-slider replaced with orderInteraction.slider")
-				raise QTIUnimplementedError("OrderInteraction")
+				raise core.QTIUnimplementedError("OrderInteraction")
 			else:
 				log.append("Error: multiple-slider replaced with choiceInteraction.slider")
 				interaction=parent.ChildElement(qtiv2.interactions.ChoiceInteraction)
@@ -1549,9 +1549,9 @@ class RenderSlider(RenderThing):
 					interaction.orientation=core.MigrateV2Orientation(self.orientation)
 				# startValues are handled below after the variable is declared
 			else:
-				raise QTIUnimplementedError("Multiple/Ordered SliderInteraction")
+				raise core.QTIUnimplementedError("Multiple/Ordered SliderInteraction")
 		else:	
-			raise QTIUnimplementedError("%s x render_slider"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_slider"%self.parent.__class__.__name__)
 		if prompt:
 			interactionPrompt=interaction.ChildElement(qtiv2.interactions.Prompt)
 			for child in prompt:
@@ -1568,7 +1568,7 @@ class RenderSlider(RenderThing):
 				value.SetValue(xsi.EncodeFloat(self.startVal))
 			else:
 				# slider bound to something else?
-				raise QTIError("Unexpected slider type for default: %s"%qtiv2.variables.BaseType.EncodeValue(declaration.baseType))
+				raise core.QTIError("Unexpected slider type for default: %s"%qtiv2.variables.BaseType.EncodeValue(declaration.baseType))
 
 
 class RenderExtension(Render):
-- 
2.43.0


From 0fb02efb94a4d00ddaebdea31c903e20264a287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 280/305] fix: writing QTI v1 documents failed, and parts of
 them were lost

---
 pyslet/pyslet/qtiv1/assessment.py | 29 +++++++++++++++--------------
 pyslet/pyslet/qtiv1/common.py     | 14 ++++++++++++--
 pyslet/pyslet/qtiv1/item.py       | 24 ++++++++++++------------
 pyslet/pyslet/qtiv1/objectbank.py |  8 +++++++-
 pyslet/pyslet/qtiv1/outcomes.py   | 15 ++++++++++++---
 pyslet/pyslet/qtiv1/sao.py        | 15 +++++++++------
 pyslet/pyslet/qtiv1/section.py    | 19 ++++++++++---------
 7 files changed, 77 insertions(+), 47 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/assessment.py b/pyslet/pyslet/qtiv1/assessment.py
index 4924293..9111508 100755
--- a/pyslet/pyslet/qtiv1/assessment.py
+++ b/pyslet/pyslet/qtiv1/assessment.py
@@ -4,9 +4,9 @@ import pyslet.xml20081126.structures as xml
 import pyslet.xsdatatypes20041028 as xsi
 import pyslet.imsqtiv2p1 as qtiv2
 
-import core, common
+import core, common, section
 
-import string
+import string, itertools
 
 class Assessment(common.QTICommentContainer):
 	"""The Assessment data structure is used to contain the exchange of test
@@ -46,37 +46,38 @@ class Assessment(common.QTICommentContainer):
 		self.AssessmentControl=[]
 		self.Rubric=[]
 		self.PresentationMaterial=None
-		self.QTIOutcomesProcessing=[]
+		self.OutcomesProcessing=[]
 		self.AssessProcExtension=None
 		self.AssessFeedback=[]
-		self.QTISelectionOrdering=None
-		self.QTIReference=None
+		self.SelectionOrdering=None
+		self.Reference=None
 		self.SectionMixin=[]
 		
 	def SectionRef(self):
-		child=SectionRef(self)
+		child=section.SectionRef(self)
 		self.SectionMixin.append(child)
 		return child
 		
 	def Section(self):
-		child=Section(self)
+		child=section.Section(self)
 		self.SectionMixin.append(child)
 		return child
 		
 	def GetChildren(self):
+		for child in common.QTICommentContainer.GetChildren(self): yield child
+		if self.Duration: yield self.Duration
 		for child in itertools.chain(
-			QTIComment.GetChildren(self),
 			self.QTIMetadata,
 			self.Objectives,
 			self.AssessmentControl,
 			self.Rubric):
 			yield child
 		if self.PresentationMaterial: yield self.PresentationMaterial
-		for child in self.QTIOutcomesProcessing: yield child
-		if self.QTIAssessProcExtension: yield self.QTIAssessProcExtension
+		for child in self.OutcomesProcessing: yield child
+		if self.AssessProcExtension: yield self.AssessProcExtension
 		for child in self.AssessFeedback: yield child
-		if self.QTISelectionOrdering: yield self.QTISelectionOrdering
-		if self.QTIReference: yield self.QTIReference
+		if self.SelectionOrdering: yield self.SelectionOrdering
+		if self.Reference: yield self.Reference
 		for child in self.SectionMixin: yield child
 
 	def MigrateV2(self,output):
@@ -153,8 +154,8 @@ class AssessFeedback(common.QTICommentContainer,common.ContentMixin):
 			common.ContentMixin.GetContentChildren(self))
 
 	def ContentMixin(self,childClass):
-		if childClass in (common.Material,common.QTIFlowMat):
-			common.ContentMixin.ContentMixin(self,childClass)
+		if childClass in (common.Material,common.FlowMat):
+			return common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
 	
diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index e257414..9a2f459 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -201,7 +201,8 @@ class Material(QTICommentContainer,ContentMixin):
 	def GetChildren(self):
 		return itertools.chain(
 			QTICommentContainer.GetChildren(self),
-			ContentMixin.GetContentChildren(self))
+			ContentMixin.GetContentChildren(self),
+			self.AltMaterial)
 	
 	def ContentChanged(self):
 		if self.label:
@@ -919,7 +920,7 @@ class Vocabulary(core.QTIElement):
 	XMLATTR_vocab_type='vocabType'
 
 	def __init__(self,parent):
-		QTIElement.__init__(self,parent)
+		core.QTIElement.__init__(self,parent)
 		self.uri=None
 		self.entityRef=None
 		self.vocabType=None		
@@ -1746,6 +1747,15 @@ class Reference(QTICommentContainer,ContentMixin):
 	XMLNAME="reference"
 	XMLCONTENT=xml.ElementContent
 	
+	def __init__(self,parent):
+		QTICommentContainer.__init__(self,parent)
+		ContentMixin.__init__(self)
+
+	def GetChildren(self):
+		return itertools.chain(
+			QTICommentContainer.GetChildren(self),
+			ContentMixin.GetContentChildren(self))
+
 	def ContentMixin(self,childClass):
 		"""We override this method to prevent references from being included."""
 		if issubclass(childClass,(Material,MatText,MatEmText,MatImage,MatAudio,
diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 40b46e3..9277017 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -65,7 +65,7 @@ class Item(common.QTICommentContainer,core.SectionItemMixin,core.ObjectMixin):
 		self.ResProcessing=[]
 		self.ItemProcExtension=None
 		self.ItemFeedback=[]
-		self.QTIReference=None
+		self.Reference=None
 					
 	def GetChildren(self):
 		for child in common.QTICommentContainer.GetChildren(self): yield child
@@ -82,7 +82,7 @@ class Item(common.QTICommentContainer,core.SectionItemMixin,core.ObjectMixin):
 		for child in self.ResProcessing: yield child
 		if self.ItemProcExtension: yield self.ItemProcExtension
 		for child in self.ItemFeedback: yield child
-		if self.QTIReference: yield self.QTIReference
+		if self.Reference: yield self.Reference
 	
 	def MigrateV2(self,output):
 		"""Converts this item to QTI v2
@@ -1798,7 +1798,7 @@ class ResProcessing(common.QTICommentContainer):
 		self.ConditionMixin=[]
 		
 	def GetChildren(self):
-		for child in QTICommentContainer.GetChildren(self): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.Outcomes
 		for child in self.ConditionMixin: yield child
 
@@ -1844,7 +1844,7 @@ class Outcomes(common.QTICommentContainer):
 	
 	def GetChildren(self):
 		return itertools.chain(
-			QTICommentContainer.GetChildren(self),
+			common.QTICommentContainer.GetChildren(self),
 			self.DecVar,
 			self.InterpretVar)
 
@@ -1887,7 +1887,7 @@ class RespCondition(common.QTICommentContainer,ConditionMixin):
 		self.RespCondExtension=None
 	
 	def GetChildren(self):
-		for child in QTICommentContainer.GetChildren(self): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.ConditionVar
 		for child in itertools.chain(
 			self.SetVar,
@@ -2029,7 +2029,7 @@ class ItemFeedback(core.QTIElement,common.ContentMixin):
 
 	def GetChildren(self):
 		return itertools.chain(
-			QTIElement.GetChildren(self),
+			core.QTIElement.GetChildren(self),
 			self.contentChildren)
 
 	def MigrateV2(self,v2Item,log):
@@ -2068,8 +2068,8 @@ class Solution(common.ContentMixin,common.QTICommentContainer):
 
 	def GetChildren(self):
 		return itertools.chain(
-			common.QTICommentContainer.GetChildren(),
-			common.ContentMixin.GetContentChildren())
+			common.QTICommentContainer.GetChildren(self),
+			common.ContentMixin.GetContentChildren(self))
 
 
 class FeedbackMaterial(common.ContentMixin,core.QTIElement):
@@ -2089,7 +2089,7 @@ class FeedbackMaterial(common.ContentMixin,core.QTIElement):
 			raise TypeError
 
 	def GetChildren(self):
-		return common.ContentMixin.GetContentChildren()
+		return common.ContentMixin.GetContentChildren(self)
 
 
 class SolutionMaterial(FeedbackMaterial):
@@ -2116,7 +2116,7 @@ class Hint(common.ContentMixin,common.QTICommentContainer):
 	def __init__(self,parent):
 		common.QTICommentContainer.__init__(self,parent)
 		common.ContentMixin.__init__(self)
-		self.feedbackStyle=FeedbackStyle.DEFAULT
+		self.feedbackStyle=core.FeedbackStyle.DEFAULT
 	
 	def ContentMixin(self,childClass):
 		if childClass is HintMaterial:
@@ -2126,8 +2126,8 @@ class Hint(common.ContentMixin,common.QTICommentContainer):
 
 	def GetChildren(self):
 		return itertools.chain(
-			common.QTICommentContainer.GetChildren(),
-			common.ContentMixin.GetContentChildren())
+			common.QTICommentContainer.GetChildren(self),
+			common.ContentMixin.GetContentChildren(self))
 
 
 class HintMaterial(FeedbackMaterial):
diff --git a/pyslet/pyslet/qtiv1/objectbank.py b/pyslet/pyslet/qtiv1/objectbank.py
index 042ac62..26d2cb4 100755
--- a/pyslet/pyslet/qtiv1/objectbank.py
+++ b/pyslet/pyslet/qtiv1/objectbank.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common
 
-import string
+import string, itertools
 
 
 class ObjectBank(common.MetadataContainerMixin,common.QTICommentContainer):
@@ -26,6 +26,12 @@ class ObjectBank(common.MetadataContainerMixin,common.QTICommentContainer):
 		self.QTIMetadata=[]
 		self.ObjectMixin=[]
 		
+	def GetChildren(self):
+		return itertools.chain(
+			common.QTICommentContainer.GetChildren(self),
+			self.QTIMetadata,
+			self.ObjectMixin)
+		
 	def MigrateV2(self,output):
 		for sectionOrItem in self.ObjectMixin:
 			sectionOrItem.MigrateV2(output)
diff --git a/pyslet/pyslet/qtiv1/outcomes.py b/pyslet/pyslet/qtiv1/outcomes.py
index cadaf1c..d9ea124 100755
--- a/pyslet/pyslet/qtiv1/outcomes.py
+++ b/pyslet/pyslet/qtiv1/outcomes.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common, item
 
-import string
+import string, itertools
 
 
 class OutcomesProcessing(common.QTICommentContainer):
@@ -32,14 +32,14 @@ class OutcomesProcessing(common.QTICommentContainer):
 	def __init__(self,parent):
 		common.QTICommentContainer.__init__(self,parent)
 		self.scoreModel=None
-		self.Outcomes=itemm.Outcomes(self)
+		self.Outcomes=item.Outcomes(self)
 		self.ObjectsCondition=[]
 		self.ProcessingParameter=[]
 		self.MapOutput=[]
 		self.OutcomesFeedbackTest=[]
 	
 	def GetChildren(self):
-		for child in common.QTICommentContainer.GetChildren(): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.Outcomes
 		for child in itertools.chain(
 			self.ObjectsCondition,
@@ -337,6 +337,9 @@ class AndTest(OutcomesTest):
 	def __init__(self,parent):
 		OutcomesTest.__init__(self,parent)
 		self.OutcomesTest=[]
+
+	def GetChildren(self):
+		return iter(self.OutcomesTest)
 			
 
 class OrTest(OutcomesTest):
@@ -352,6 +355,9 @@ class OrTest(OutcomesTest):
 		OutcomesTest.__init__(self,parent)
 		self.OutcomesTest=[]
 
+	def GetChildren(self):
+		return iter(self.OutcomesTest)
+
 
 class NotTest(OutcomesTest):
 	"""The <not_test> element is used to define variable test conditions that
@@ -366,4 +372,7 @@ class NotTest(OutcomesTest):
 		OutcomesTest.__init__(self,parent)
 		self.OutcomesTest=None
 
+	def GetChildren(self):
+		if self.OutcomesTest: yield self.OutcomesTest
+
 
diff --git a/pyslet/pyslet/qtiv1/sao.py b/pyslet/pyslet/qtiv1/sao.py
index 1df1243..ce8aedf 100755
--- a/pyslet/pyslet/qtiv1/sao.py
+++ b/pyslet/pyslet/qtiv1/sao.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common
 
-import string
+import string, itertools
 
 
 class SelectionOrdering(common.QTICommentContainer):
@@ -66,13 +66,13 @@ class Selection(core.QTIElement):
 
 	def __init__(self,parent):
 		core.QTIElement.__init__(self,parent)
-		self.SourceBankRef=None
+		self.SourcebankRef=None
 		self.SelectionNumber=None
 		self.SelectionMetadata=None
 		self.SelectionChildMixin=None
 
 	def GetChildren(self):
-		if self.SourceBankRef: yield self.SourceBankRef
+		if self.SourcebankRef: yield self.SourcebankRef
 		if self.SelectionNumber: yield self.SelectionNumber
 		if self.SelectionMetadata: yield self.SelectionMetadata
 		if self.SelectionChildMixin: yield self.SelectionChildMixin
@@ -147,7 +147,7 @@ class OrSelection(SelectionOperator,SelectionChildMixin):
 		SelectionOperator.__init__(self,parent)
 		self.SelectionOperator=[]
 	
-	def GetChildren(self,parent):
+	def GetChildren(self):
 		return iter(self.SelectionOperator)
 
 
@@ -166,7 +166,7 @@ class AndSelection(SelectionOperator,SelectionChildMixin):
 		SelectionOperator.__init__(self,parent)
 		self.SelectionOperator=[]
 	
-	def GetChildren(self,parent):
+	def GetChildren(self):
 		return iter(self.SelectionOperator)
 
 
@@ -184,7 +184,7 @@ class NotSelection(SelectionOperator,SelectionChildMixin):
 		SelectionOperator.__init__(self,parent)
 		self.SelectionOperator=None
 	
-	def GetChildren(self,parent):
+	def GetChildren(self):
 		if self.SelectionOperator: yield self.SelectionOperator
 
 	
@@ -214,6 +214,9 @@ class Order(core.QTIElement):
 		self.orderType=None
 		self.OrderExtension=None	
 
+	def GetChildren(self):
+		if self.OrderExtension: yield self.OrderExtension
+
 
 class OrderExtension(core.QTIElement):
 	"""This element allows proprietary extensions to be made to the order rules.
diff --git a/pyslet/pyslet/qtiv1/section.py b/pyslet/pyslet/qtiv1/section.py
index a277b3b..40a9b25 100755
--- a/pyslet/pyslet/qtiv1/section.py
+++ b/pyslet/pyslet/qtiv1/section.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common
 
-import string
+import string, itertools
 
 
 class Section(core.ObjectMixin,core.SectionMixin,common.QTICommentContainer):
@@ -51,16 +51,17 @@ class Section(core.ObjectMixin,core.SectionMixin,common.QTICommentContainer):
 		self.SectionPostcondition=[]
 		self.Rubric=[]
 		self.PresentationMaterial=None
-		self.QTIOutcomesProcessing=[]
+		self.OutcomesProcessing=[]
 		self.SectionProcExtension=None
 		self.SectionFeedback=[]
-		self.QTISelectionOrdering=None
-		self.QTIReference=None
+		self.SelectionOrdering=None
+		self.Reference=None
 		self.SectionItemMixin=[]
 		
 	def GetChildren(self):
+		for child in common.QTICommentContainer.GetChildren(self): yield child
+		if self.Duration: yield self.Duration
 		for child in itertools.chain(
-			core.QTIComment.GetChildren(self),
 			self.QTIMetadata,
 			self.Objectives,
 			self.SectionControl,
@@ -69,11 +70,11 @@ class Section(core.ObjectMixin,core.SectionMixin,common.QTICommentContainer):
 			self.Rubric):
 			yield child
 		if self.PresentationMaterial: yield self.PresentationMaterial
-		for child in self.QTIOutcomesProcessing: yield child
+		for child in self.OutcomesProcessing: yield child
 		if self.SectionProcExtension: yield self.SectionProcExtension
 		for child in self.SectionFeedback: yield child
-		if self.QTISelectionOrdering: yield self.QTISelectionOrdering
-		if self.QTIReference: yield self.QTIReference
+		if self.SelectionOrdering: yield self.SelectionOrdering
+		if self.Reference: yield self.Reference
 		for child in self.SectionItemMixin: yield child
 
 	def MigrateV2(self,output):
@@ -168,7 +169,7 @@ class SectionFeedback(common.QTICommentContainer,common.ContentMixin):
 
 	def ContentMixin(self,childClass):
 		if childClass in (common.Material,common.FlowMat):
-			common.ContentMixin.ContentMixin(self,childClass)
+			return common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
 	
-- 
2.43.0


From fa8adbe4f649320fd3a78034f589350838aa261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 281/305] fix: unavailable external HTML material failed with
 NameError

---
 pyslet/pyslet/qtiv1/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 9a2f459..a5278e8 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -5,6 +5,7 @@ import pyslet.xsdatatypes20041028 as xsi
 import pyslet.html40_19991224 as html
 import pyslet.imsqtiv2p1 as qtiv2
 import pyslet.imsmdv1p2p1 as imsmd
+import pyslet.rfc2616 as http
 
 import core
 
-- 
2.43.0


From 440bf2662fbc510ec2c97b7861c10b3e356555c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 282/305] fix: emphasised text lost its emphasis when migrated

---
 pyslet/pyslet/qtiv1/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index a5278e8..d3380e0 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -417,7 +417,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					addNode=parent.ChildElement(self.inlineWrapper,(qtiv2.core.IMSQTI_NAMESPACE,self.inlineWrapper.XMLNAME[1]))
 				else:
 					addNode=parent
-				parent.AddData(data)
+				addNode.AddData(data)
 		elif self.texttype=='text/html':		
 			if childType is html.BlockMixin or (childType is html.FlowMixin and not self.IsInline()):
 				# Block or mixed-up flow, wrap all text and inline elements in p
-- 
2.43.0


From 3ca6aee1022d3ad40085329565599041a16f3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 283/305] fix: text of material with images or breaks could not
 be extracted

---
 pyslet/pyslet/qtiv1/common.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index d3380e0..01bc3fe 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -500,7 +500,7 @@ class MatBreak(core.QTIElement,MatThingMixin):
 			
 	def ExtractText(self):
 		"""Returns a simple line break"""
-		return "\n"
+		return "\n",None
 
 	def MigrateV2Content(self,parent,childType,log):
 		if childType in (html.InlineMixin,html.FlowMixin):
@@ -546,7 +546,7 @@ class MatImage(core.QTIElement,PositionMixin,MatThingMixin):
 			
 	def ExtractText(self):
 		"""We cannot extract text from matimage so we return a simple string."""
-		return "[image]"
+		return "[image]",self.ResolveLang()
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
@@ -597,7 +597,7 @@ class MatAudio(core.QTIElement,MatThingMixin):
 			
 	def ExtractText(self):
 		"""We cannot extract text from mataudio so we return a simple string."""
-		return "[sound]"
+		return "[sound]",self.ResolveLang()
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
@@ -649,7 +649,7 @@ class MatVideo(core.QTIElement,PositionMixin,MatThingMixin):
 			
 	def ExtractText(self):
 		"""We cannot extract text from matvideo so we return a simple string."""
-		return "[video]"
+		return "[video]",self.ResolveLang()
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
@@ -700,7 +700,7 @@ class MatApplet(core.QTIElement,PositionMixin,MatThingMixin):
 			
 	def ExtractText(self):
 		"""We cannot extract text from matapplet so we return a simple string."""
-		return "[applet]"
+		return "[applet]",self.ResolveLang()
 
 	def MigrateV2Content(self,parent,childType,log):
 		raise core.QTIUnimplementedError("matapplet")
@@ -740,7 +740,7 @@ class MatApplication(core.QTIElement,MatThingMixin):
 			
 	def ExtractText(self):
 		"""We cannot extract text from matapplication so we return a simple string."""
-		return "[application]"
+		return "[application]",self.ResolveLang()
 
 	def MigrateV2Content(self,parent,childType,log):
 		raise core.QTIUnimplementedError("matapplication")
-- 
2.43.0


From 82a714dd4553cb70349793c50d6e3a2883292825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 284/305] fix: language and label of hotspots were swapped

---
 pyslet/pyslet/qtiv1/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 9277017..a1dfcff 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -1727,7 +1727,7 @@ class ResponseLabel(core.QTIElement,common.ContentMixin):
 			if type(child) in StringTypes:
 				valueData.append(child)
 			else:
-				childLang,text=child.ExtractText()
+				text,childLang=child.ExtractText()
 				if lang is None and childLang is not None:
 					lang=childLang
 				labelData.append(text)
-- 
2.43.0


From aa6c15d96e639e179b96f764e99117f3ee306136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 285/305] fix: boolean QTI v1 outcomes were migrated as
 identifiers

---
 pyslet/pyslet/qtiv1/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/core.py b/pyslet/pyslet/qtiv1/core.py
index 8efee58..a005e29 100755
--- a/pyslet/pyslet/qtiv1/core.py
+++ b/pyslet/pyslet/qtiv1/core.py
@@ -410,8 +410,8 @@ class VarType(xsi.Enumeration):
 		'Decimal':3,
 		'Scientific':4,
 		'Boolean':5,
-		'Enumerated':5,
-		'Set':6
+		'Enumerated':6,
+		'Set':7
 		}
 xsi.MakeEnumeration(VarType)
 
-- 
2.43.0


From 6d34cc58fbf266d58c38c84597f1365eac500d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 286/305] fix: feedback identifiers that need changing were
 changed in one place only

---
 pyslet/pyslet/qtiv1/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 01bc3fe..9cec5d7 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -1241,7 +1241,7 @@ class DisplayFeedback(core.QTIElement):
 		variable.identifier='FEEDBACK'
 		value=multiple.ChildElement(qtiv2.expressions.BaseValue)
 		value.baseType=qtiv2.variables.BaseType.identifier
-		value.SetValue(self.linkRefID)
+		value.SetValue(identifier)
 
 
 class ConditionVar(core.QTIElement):
-- 
2.43.0


From faef974e9ab753c287dc245bb88165f027d965da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 287/305] fix: empty HTML material could not be loaded

---
 pyslet/pyslet/qtiv1/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 9cec5d7..0d957fa 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -333,8 +333,9 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					for child in self.GetChildren():
 						value.append(unicode(child))
 					value=string.join(value,'')
-				if value:
-					e=xml.XMLEntity(value)
+				if not value:
+					return
+				e=xml.XMLEntity(value)
 			doc=html.XHTMLDocument(baseURI=uri)
 			doc.ReadFromEntity(e)
 			self.matChildren=list(doc.root.Body.GetChildren())
-- 
2.43.0


From fe32879c9ec191d1f019601e56cd1bc59d7cede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:35 +0000
Subject: [PATCH 288/305] fix: endless loop over the points of a polygon

---
 pyslet/pyslet/qtiv2/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index 3afafc8..ece1e65 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -161,6 +161,7 @@ def CalculateShapeBounds(shape,coords):
 				output[1]=y
 			elif y>output[3]:
 				output[3]=y
+			i=i+1
 		return output
 	elif shape==Shape.rect:
 		return [coords[0].GetValue(1024),coords[1].GetValue(768),
@@ -186,6 +187,7 @@ def OffsetShape(shape,coords,xOffset,yOffset):
 		while 2*i+1<len(coords):
 			coords[2*i].Add(-xOffset)
 			coords[2*i+1].Add(-yOffset)
+			i=i+1
 	elif shape==Shape.rect:
 		coords[0].Add(-xOffset)
 		coords[1].Add(-yOffset)
-- 
2.43.0


From ec557e887decd89f59a304fc0ee20d42e4eef249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:14 +0000
Subject: [PATCH 289/305] fix: an item with one image in two hotspot
 interactions could not be migrated

---
 pyslet/pyslet/qtiv1/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index a1dfcff..6d4cd1c 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -748,7 +748,7 @@ class Presentation(FlowContainer,common.PositionMixin):
 		for hs in hotspots:
 			for img in images:
 				# migrated images/hotspots will always have absolute URIs
-				if img.src and str(img.src)==str(hs.Object.data):
+				if img.parent and img.src and str(img.src)==str(hs.Object.data):
 					parent=img.parent
 					parent.DeleteChild(img)
 					if isinstance(parent,html.P) and len(list(parent.GetChildren()))==0:
-- 
2.43.0


From 9c30c8b35985f8b11da9852cad2e670674beb702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:14 +0000
Subject: [PATCH 290/305] fix: adding a string in some language to LRM strings
 without one failed

---
 pyslet/pyslet/imsmdv1p2p1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/imsmdv1p2p1.py b/pyslet/pyslet/imsmdv1p2p1.py
index de205d6..dd9de11 100644
--- a/pyslet/pyslet/imsmdv1p2p1.py
+++ b/pyslet/pyslet/imsmdv1p2p1.py
@@ -60,8 +60,8 @@ class LangStringList(LRMElement):
 					return s
 			lang=lang.split('-')[0]
 			for s in self.LangString:
-				sLang=s.GetLang().split('-')[0]
-				if sLang==lang:
+				sLang=s.GetLang()
+				if sLang is not None and sLang.split('-')[0]==lang:
 					return s
 		return None
 
-- 
2.43.0


From 04ea8fb311c7c093bc35d9d05c24990b02c7e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:58 +0000
Subject: [PATCH 291/305] fix: material around fill-in-blanks and after sliders
 was lost

---
 pyslet/pyslet/qtiv1/item.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 6d4cd1c..141070e 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -882,10 +882,10 @@ class ResponseThing(Response):
 		for child in self.outro: yield child
 
 	def ContentChanged(self):
-		if isinstance(self.render,RenderFIB) and self.render.MixedModel():
+		if isinstance(self.render,RenderFIB):
 			# use simplified prompt logic.
 			self.prompt=self.intro
-			self.inlintPrompt=True
+			self.inlinePrompt=True
 			for child in self.prompt:
 				if not child.IsInline():
 					self.inlinePrompt=False
@@ -915,7 +915,7 @@ class ResponseThing(Response):
 					self.inlineFooter=True
 					foundLabel=True
 					continue
-				if foundLabel:
+				if foundLabel or child in self.outro:
 					self.footer.append(child)
 					if not child.IsInline():
 						self.inlineFooter=False
@@ -928,7 +928,11 @@ class ResponseThing(Response):
 		raise core.QTIUnimplementedError("BaseType selection for %s"%self.__class__.__name__)
 
 	def MigrateV2Content(self,parent,childType,log):
-		if self.inlinePrompt:
+		if isinstance(self.render,RenderFIB):
+			# these interactions have no place for a prompt
+			common.ContentMixin.MigrateV2Content(self,parent,childType,log,self.prompt)
+			interactionPrompt=None
+		elif self.inlinePrompt:
 			interactionPrompt=self.prompt
 		else:
 			if childType is html.InlineMixin:
-- 
2.43.0


From 5b2ebb3bb098a6ebeb6cc8e2785ad3fe95fdcffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:23 +0000
Subject: [PATCH 292/305] fix: hotspots without rarea are ellipses

---
 pyslet/pyslet/qtiv1/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/qtiv1/core.py b/pyslet/pyslet/qtiv1/core.py
index a005e29..b04e662 100755
--- a/pyslet/pyslet/qtiv1/core.py
+++ b/pyslet/pyslet/qtiv1/core.py
@@ -155,6 +155,8 @@ def MigrateV2AreaCoords(area,value,log):
 			sep=1
 	if vStr:
 		coords.append(int(float(string.join(vStr,''))))
+	if area is None:
+		area=Area.DEFAULT
 	if area==Area.Rectangle:
 		if len(coords)<4:
 			log.append("Error: not enough coordinates for rectangle, padding with zeros")
-- 
2.43.0


From 7bf6fd6fe2bd78c6535f24418db8bdf6e0a1194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:06 +0000
Subject: [PATCH 293/305] fix: minnumber of hotspots with one image was lost

---
 pyslet/pyslet/qtiv1/item.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 141070e..86d3d4b 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -1206,6 +1206,8 @@ class RenderChoice(RenderThing):
 			interaction.minChoices=self.minNumber
 		if self.maxNumber is not None:
 			interaction.maxChoices=self.maxNumber
+		elif self.parent.rCardinality==core.RCardinality.Multiple:
+			interaction.maxChoices=0
 		interaction.shuffle=self.shuffle
 		for child in self.GetLabelContent():
 			if isinstance(child,ResponseLabel):
@@ -1261,6 +1263,8 @@ class RenderHotspot(RenderThing):
 			interaction.minChoices=self.minNumber
 		if self.maxNumber is not None:
 			interaction.maxChoices=self.maxNumber
+		elif self.parent.rCardinality==core.RCardinality.Multiple:
+			interaction.maxChoices=0
 		labels=list(self.FindChildrenDepthFirst(ResponseLabel,False))
 		# prompt is either a single <img> tag we already migrated or.. a set of inline
 		# objects that are still to be migrated (and which should contain the hotspot image).
@@ -1321,7 +1325,7 @@ class RenderHotspot(RenderThing):
 				hotspotImage.height=html.LengthType(img.height)
 				hotspotImage.width=html.LengthType(img.width)
 				# it will get cleaned up later
-				if len(hsi)>0:
+				if len(hsi)>1:
 					# Worst case: multiple images => multiple hotspot interactions
 					if self.maxNumber is not None:
 						log.append("Warning: multi-image hotspot maps to multiple interactions, maxChoices can no longer be enforced")
@@ -1333,6 +1337,8 @@ class RenderHotspot(RenderThing):
 						interaction=parent.ChildElement(qtiv2.interactions.HotspotInteraction)
 						if self.maxNumber is not None:
 							interaction.maxChoices=self.maxNumber
+						elif self.parent.rCardinality==core.RCardinality.Multiple:
+							interaction.maxChoices=0
 						hotspotImage=interaction.ChildElement(html.Object,(qtiv2.core.IMSQTI_NAMESPACE,'object'))
 						hotspotImage.data=img.ResolveURI(img.uri)
 						hotspotImage.type=img.imageType
-- 
2.43.0


From ab1bd1c5245cb470d8729ad89255846e08268bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:06 +0000
Subject: [PATCH 294/305] fix: line breaks between flows were not in the QTI
 namespace

---
 pyslet/pyslet/qtiv1/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 0d957fa..7c27e01 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -157,7 +157,7 @@ class ContentMixin:
 							p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
 							brBefore=False
 						if brBefore:
-							p.ChildElement(html.Br)
+							p.ChildElement(html.Br,(qtiv2.core.IMSQTI_NAMESPACE,'br'))
 							brBefore=False
 						child.MigrateV2Content(p,html.InlineMixin,log)
 					else:
-- 
2.43.0


From 1191659d14774a7cf8c1b782f919d115781bd2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 295/305] fix: references to materials were left out

---
 pyslet/pyslet/qtiv1/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 7c27e01..d091282 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -1767,7 +1767,7 @@ class Reference(QTICommentContainer,ContentMixin):
 			raise TypeError
 
 		
-class MaterialRef(core.QTIElement):
+class MaterialRef(ContentMixin,core.QTIElement):
 	"""The <material_ref> element is used to contain a reference to the required
 	full material block. This material will have had an identifier assigned to
 	enable such a reference to be reconciled when the instance is parsed into
@@ -1781,6 +1781,7 @@ class MaterialRef(core.QTIElement):
 
 	def __init__(self,parent):
 		core.QTIElement.__init__(self,parent)
+		ContentMixin.__init__(self)
 		self.linkRefID=None
 		
 	def FindMaterial(self):
-- 
2.43.0


From f306c968fd79dc0a4f82945a6b73c98e60fb558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:36 +0000
Subject: [PATCH 296/305] fix: references to materials were refused where
 materials are allowed

---
 pyslet/pyslet/qtiv1/assessment.py | 2 +-
 pyslet/pyslet/qtiv1/common.py     | 2 +-
 pyslet/pyslet/qtiv1/item.py       | 6 +++---
 pyslet/pyslet/qtiv1/section.py    | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/assessment.py b/pyslet/pyslet/qtiv1/assessment.py
index 9111508..7c4f6a2 100755
--- a/pyslet/pyslet/qtiv1/assessment.py
+++ b/pyslet/pyslet/qtiv1/assessment.py
@@ -154,7 +154,7 @@ class AssessFeedback(common.QTICommentContainer,common.ContentMixin):
 			common.ContentMixin.GetContentChildren(self))
 
 	def ContentMixin(self,childClass):
-		if childClass in (common.Material,common.FlowMat):
+		if childClass in (common.Material,common.MaterialRef,common.FlowMat):
 			return common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index d091282..5f554ea 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -810,7 +810,7 @@ class FlowMatContainer(QTICommentContainer,ContentMixin):
 		ContentMixin.__init__(self)
 
 	def ContentMixin(self,childClass):
-		if issubclass(childClass,(Material,FlowMat)):
+		if issubclass(childClass,(Material,MaterialRef,FlowMat)):
 			return ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 86d3d4b..eb6c2ab 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -673,7 +673,7 @@ class FlowContainer(common.QTICommentContainer,common.ContentMixin):
 			common.ContentMixin.GetContentChildren(self))
 
 	def ContentMixin(self,childClass):
-		if childClass in (common.Material,Flow) or issubclass(childClass,Response):
+		if childClass in (common.Material,common.MaterialRef,Flow) or issubclass(childClass,Response):
 			return common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
@@ -2032,7 +2032,7 @@ class ItemFeedback(core.QTIElement,common.ContentMixin):
 		self.ident=None
 
 	def ContentMixin(self,childClass):
-		if childClass in (common.FlowMat,common.Material,Solution,Hint):
+		if childClass in (common.FlowMat,common.Material,common.MaterialRef,Solution,Hint):
 			return common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
@@ -2093,7 +2093,7 @@ class FeedbackMaterial(common.ContentMixin,core.QTIElement):
 		common.ContentMixin.__init__(self)
 
 	def ContentMixin(self,childClass):
-		if childClass in (common.Material,common.FlowMat):
+		if childClass in (common.Material,common.MaterialRef,common.FlowMat):
 			return common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
diff --git a/pyslet/pyslet/qtiv1/section.py b/pyslet/pyslet/qtiv1/section.py
index 40a9b25..1ddb27e 100755
--- a/pyslet/pyslet/qtiv1/section.py
+++ b/pyslet/pyslet/qtiv1/section.py
@@ -168,7 +168,7 @@ class SectionFeedback(common.QTICommentContainer,common.ContentMixin):
 			common.ContentMixin.GetContentChildren(self))
 
 	def ContentMixin(self,childClass):
-		if childClass in (common.Material,common.FlowMat):
+		if childClass in (common.Material,common.MaterialRef,common.FlowMat):
 			return common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
-- 
2.43.0


From bdaad4b9d6c55dd90b1eb9fd894f30dda9493c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:36 +0000
Subject: [PATCH 297/305] fix: removing labelled QTI v1 material failed with
 NameError

---
 pyslet/pyslet/imsqtiv1p2p1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imsqtiv1p2p1.py b/pyslet/pyslet/imsqtiv1p2p1.py
index 45b3357..5ea028c 100644
--- a/pyslet/pyslet/imsqtiv1p2p1.py
+++ b/pyslet/pyslet/imsqtiv1p2p1.py
@@ -122,7 +122,7 @@ class QTIDocument(xml.Document):
 		if matThing.label is not None:
 			self.matThings[matThing.label]=matThing
 	
-	def UnregisterMatThing(self,mathThing):
+	def UnregisterMatThing(self,matThing):
 		if matThing.label is not None and matThing is self.matThings.get(matThing.label,None):
 			del self.matThings[matThing.label]			
 	
-- 
2.43.0


From 6b77a6504b4823445c2969b0dd7bf44bc104b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:43 +0000
Subject: [PATCH 298/305] fix: migrating an empty section with a comment failed
 with IndexError

---
 pyslet/pyslet/imsqtiv1p2p1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/imsqtiv1p2p1.py b/pyslet/pyslet/imsqtiv1p2p1.py
index 5ea028c..293741e 100644
--- a/pyslet/pyslet/imsqtiv1p2p1.py
+++ b/pyslet/pyslet/imsqtiv1p2p1.py
@@ -76,7 +76,7 @@ class QuesTestInterop(QTICommentContainer):
 				if len(self.ObjectMixin)==0:
 					# Add this comment as a metadata description on the assessment
 					pass
-			elif len(self.ObjectMixin)==1:
+			elif len(self.ObjectMixin)==1 and output:
 				# Add this comment to this object's metdata description
 				doc,lom,log=output[0]
 				general=lom.LOMGeneral()
-- 
2.43.0


From 1f761a948be62d20885c8d048fc9a7751362d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:38 +0000
Subject: [PATCH 299/305] fix: inserting or reading an entity with a selection
 that omits the key in a SQL collection lost the key

---
 pyslet/pyslet/odata2/sqlds.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index e0bbb2c..6341beb 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -712,11 +712,11 @@ class SQLCollectionBase(core.EntityCollection):
 		
 		The yielded values are tuples of (mangled field name,
 		:py:class:`~pyslet.odata2.csdl.SimpleValue` instance).		
-		Only selected fields are yielded."""
-		if forUpdate:
-			keys=entity.entitySet.keys
+		Only selected fields are yielded, the keys count as selected
+		unless *forUpdate* is True."""
+		keys=entity.entitySet.keys
 		for k,v in entity.DataItems():
-			if entity.Selected(k) and (not forUpdate or k not in keys):
+			if (not forUpdate and k in keys) or (entity.Selected(k) and k not in keys):
 				if isinstance(v,edm.SimpleValue):
 					mangledName=self.container.mangledNames[(self.entitySet.name,k)]
 					if self.qualifyNames:
-- 
2.43.0


From 8be80babb24f811fe5a00208bc07d32cca68515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:39 +0000
Subject: [PATCH 300/305] fix: comparison with null matched nothing in a SQL
 collection

---
 pyslet/pyslet/odata2/sqlds.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 6341beb..4f86311 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -925,11 +925,26 @@ class SQLCollectionBase(core.EntityCollection):
 
 	def SQLExpressionEq(self,expression,params,context):
 		"""Converts the eq expression: maps to SQL "=" """
-		return self.SQLExpressionGenericBinary(expression,params,context,'=')
+		query=self._SQLExpressionNull(expression,params,context,'IS NULL')
+		if query is None:
+			query=self.SQLExpressionGenericBinary(expression,params,context,'=')
+		return query
+
+	def _SQLExpressionNull(self,expression,params,context,operator):
+		# comparison with the null literal, None if neither operand is
+		for literal,operand in ((1,0),(0,1)):
+			e=expression.operands[literal]
+			if isinstance(e,core.LiteralExpression) and not isinstance(e,UnparameterizedLiteral) and not e.value:
+				query="%s %s"%(self.SQLExpression(expression.operands[operand],params,'='),operator)
+				return self.SQLBracket(query,context,'=')
+		return None
 
 	def SQLExpressionNe(self,expression,params,context):
 		"""Converts the ne expression: maps to SQL "<>" """
-		return self.SQLExpressionGenericBinary(expression,params,context,'<>')
+		query=self._SQLExpressionNull(expression,params,context,'IS NOT NULL')
+		if query is None:
+			query=self.SQLExpressionGenericBinary(expression,params,context,'<>')
+		return query
 
 	def SQLExpressionAnd(self,expression,params,context):
 		"""Converts the and expression: maps to SQL "AND" """
-- 
2.43.0


From 4894a44602d77bbf16e8e10a3ac320e9a94a7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:47 +0000
Subject: [PATCH 301/305] fix: SQL collection paging: tokens after NULL and
 binary values failed, tokens were given for pages that were not forced or had
 no successor and long ones were lost

---
 pyslet/pyslet/odata2/sqlds.py | 77 ++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 4f86311..da9d7ab 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -389,7 +389,7 @@ class SQLCollectionBase(core.EntityCollection):
 			if len(self.skiptoken)==orderLen+len(self.entitySet.keys)+1:
 				# the last value must be an integer we add to skip
 				if isinstance(self.skiptoken[-1],edm.Int32Value):
-					self.skip+=self.skiptoken[-1].value
+					self.skip=(self.skip or 0)+self.skiptoken[-1].value
 					self.skiptoken=self.skiptoken[:-1]
 				else:
 					raise core.InvalidSystemQueryOption("skiptoken incompatible with ordering: %s"%skiptoken)
@@ -407,6 +407,7 @@ class SQLCollectionBase(core.EntityCollection):
 			return None
 			
 	def pageGenerator(self,setNextPage=False):
+		self.nextSkiptoken=None
 		if self.top==0:
 			# end of paging
 			return
@@ -428,6 +429,10 @@ class SQLCollectionBase(core.EntityCollection):
 			skip=self.skip
 			top=self.top
 			topmax=self.topmax
+			if top is not None and topmax is not None and top<=topmax:
+				# the page is not forced
+				topmax=None
+			lastValues=None
 			transaction.Begin()
 			logging.info("%s; %s",query,unicode(params.params))
 			transaction.Execute(query,params)
@@ -437,11 +442,37 @@ class SQLCollectionBase(core.EntityCollection):
 					# no more pages
 					if setNextPage:
 						self.top=self.skip=0
-						self.skipToken=None
+						self.skiptoken=None
 					break
 				if skip:
 					skip=skip-1
 					continue
+				if topmax is not None and topmax<1:
+					# there is another page, set the nextSkiptoken from
+					# the last entity
+					orderValues=lastValues[-len(self.orderNames):]
+					nextSkiptoken=[]
+					for v in orderValues:
+						nextSkiptoken.append(self.container.NewFromSQLValue(v))
+					tokenLen=0
+					for v in nextSkiptoken:
+						if v and isinstance(v,(edm.StringValue,edm.BinaryValue)):
+							tokenLen+=len(v.value)
+					nextSkip=0
+					if tokenLen>512 and self.skiptoken is not None:
+						# a really large skiptoken is no use to anyone,
+						# ditch this one, use the previous one and a skip
+						nextSkiptoken=list(self.skiptoken)
+						nextSkip=(self.skip or 0)+self.topmax
+					self.nextSkiptoken=list(nextSkiptoken)
+					if nextSkip:
+						v=edm.Int32Value()
+						v.SetFromValue(nextSkip)
+						self.nextSkiptoken.append(v)
+					if setNextPage:
+						self.skiptoken=nextSkiptoken
+						self.skip=nextSkip
+					break
 				if entity is None:
 					entity=self.NewEntity()
 					values=zip(*list(self.FieldGenerator(entity)))[1]
@@ -450,29 +481,9 @@ class SQLCollectionBase(core.EntityCollection):
 					self.container.ReadSQLValue(value,newValue)
 				entity.exists=True
 				yield entity
+				lastValues=rowValues
 				if topmax is not None:
 					topmax=topmax-1
-					if topmax<1:
-						# this is the last entity, set the nextSkiptoken
-						orderValues=rowValues[-len(self.orderNames):]
-						self.nextSkiptoken=[]
-						for v in orderValues:
-							self.nextSkiptoken.append(self.container.NewFromSQLValue(v))
-						tokenLen=0
-						for v in self.nextSkiptoken:
-							if v and isinstance(v,(edm.StringValue,edm.BinaryValue)):
-								tokenLen+=len(v.value)
-						# a really large skiptoken is no use to anyone
-						if tokenLen>512:
-							# ditch this one, copy the previous one and add a skip
-							self.nextSkiptoken=list(self.skiptoken)
-							v=edm.Int32Value()
-							v.SetFromValue(self.topmax)
-							self.nextSkiptoken.append(v)
-						if setNextPage:
-							self.skiptoken=self.nextSkiptoken
-							self.skip=0
-						break
 				if top is not None:
 					top=top-1
 					if top<1:
@@ -615,13 +626,21 @@ class SQLCollectionBase(core.EntityCollection):
 		while True:
 			oName,dir=self.orderNames[i]
 			v=self.skiptoken[i]
-			op=">" if dir>0 else "<"
-			skipExpression.append("(%s %s %s"%(oName,op,params.AddParam(self.container.PrepareSQLValue(v))))
+			# NULL sorts before everything else
+			if not v:
+				skipExpression.append("(%s IS NOT NULL"%oName if dir>0 else "(1=0")
+			elif dir>0:
+				skipExpression.append("(%s > %s"%(oName,params.AddParam(self.container.PrepareSQLValue(v))))
+			else:
+				skipExpression.append("(%s < %s OR %s IS NULL"%(oName,params.AddParam(self.container.PrepareSQLValue(v)),oName))
 			ket+=1
 			i+=1
 			if i<len(self.orderNames):
 				# more to come
-				skipExpression.append(" OR (%s = %s AND "%(oName,params.AddParam(self.container.PrepareSQLValue(v))))
+				if not v:
+					skipExpression.append(" OR (%s IS NULL AND "%oName)
+				else:
+					skipExpression.append(" OR (%s = %s AND "%(oName,params.AddParam(self.container.PrepareSQLValue(v))))
 				ket+=1
 				continue
 			else:
@@ -3485,8 +3504,10 @@ class SQLiteEntityContainer(SQLEntityContainer):
 		Overridden to ensure that buffer objects returned by the
 		underlying DB API are converted to strings.  Otherwise
 		*sqlValue* is passed directly to the parent."""
-		if type(sqlValue)==BufferType:
-			result=edm.BinaryValue()
+		if sqlValue is None:
+			return edm.SimpleValue()
+		elif type(sqlValue)==BufferType:
+			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Binary)
 			result.SetFromValue(str(sqlValue))
 			return result
 		else:
-- 
2.43.0


From ea42e7aae63cb62e519161df46b9ef94330e63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:53 +0000
Subject: [PATCH 302/305] fix: undefined names and bad formatting in the link
 operations of SQL collections

---
 pyslet/pyslet/odata2/sqlds.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index da9d7ab..8b86d36 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -1413,7 +1413,7 @@ class SQLEntityCollection(SQLCollectionBase):
 				targetSet=linkEnd.otherEnd.entitySet
 				nullable,unique=fkMapping[linkEnd]
 				if len(dv.bindings)>1:
-					raise NavigationError("Unexpected error: found multiple bindings for foreign key constraint %s"%k)
+					raise edm.NavigationError("Unexpected error: found multiple bindings for foreign key constraint %s"%k)
 				binding=dv.bindings[0]
 				if not isinstance(binding,edm.Entity):
 					# just a key, grab the entity
@@ -1671,7 +1671,7 @@ class SQLEntityCollection(SQLCollectionBase):
 				raise KeyError
 			elif rowcount>1:
 				# whoops, that was unexpected
-				raise SQLError("Integrity check failure, non-unique key: %s"%repr(key))
+				raise SQLError("Integrity check failure, non-unique key: %s"%repr(entity.Key()))
 			transaction.Commit()
 		except Exception as e:
 			transaction.Rollback(e)
@@ -1732,7 +1732,7 @@ class SQLEntityCollection(SQLCollectionBase):
 			transaction.Execute(query,params)
 			if transaction.cursor.rowcount==0:
 				# no rows matched this constraint, entity either doesn't exist or wasn't linked to the target
-				raise KeyError("Entity %s does not exist or is not linked to %s"%str(entity.GetLocation(),targetEntity.GetLocation))					
+				raise KeyError("Entity %s does not exist or is not linked to %s"%(str(entity.GetLocation()),str(targetEntity.GetLocation())))					
 			transaction.Commit()
 		except Exception as e:
 			transaction.Rollback(e)
@@ -2028,7 +2028,7 @@ class SQLForeignKeyCollection(SQLNavigationCollection):
 			# could be a ConstraintError if we are already linked to a
 			# different entity
 			transaction.Rollback(e,swallowErr=True)
-			raise NavigationError(str(e))
+			raise edm.NavigationError(str(e))
 		except Exception as e:
 			transaction.Rollback(e)
 		finally:			
@@ -2285,12 +2285,12 @@ class SQLAssociationCollection(SQLNavigationCollection):
 				# if this is a 1-1 relationship InsertEntitySQL will fail (with
 				# an unbound navigation property) so we need to suppress the
 				# back-link.
-				baseCollection.InsertEntitySQL(entity,linkEnd.otherEnd,transaction=transaction)
+				baseCollection.InsertEntitySQL(entity,self.fromEnd.otherEnd,transaction=transaction)
 			self.InsertLink(entity,transaction)
 			transaction.Commit()	
 		except self.container.dbapi.IntegrityError as e:
 			transaction.Rollback(e,swallowErr=True)
-			raise NavigationError(str(entity.GetLocation()))
+			raise edm.NavigationError(str(entity.GetLocation()))
 		except Exception as e:
 			transaction.Rollback(e)
 		finally:
-- 
2.43.0


From ac4bb9a5e7ac228da4cbf75411dbd297fee0d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:53 +0000
Subject: [PATCH 303/305] fix: SQL navigation queries had ambiguous column
 names and failed on compound keys

---
 pyslet/pyslet/odata2/sqlds.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 8b86d36..b755246 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -614,7 +614,10 @@ class SQLCollectionBase(core.EntityCollection):
 		entity
 			An expression is added to restrict the query to this entity"""
 		for k,v in entity.KeyDict().items():
-			where.append('%s=%s'%(self.container.mangledNames[(self.entitySet.name,k)],params.AddParam(self.container.PrepareSQLValue(v))))
+			mangledName=self.container.mangledNames[(self.entitySet.name,k)]
+			if self.qualifyNames:
+				mangledName="%s.%s"%(self.tableName,mangledName)
+			where.append('%s=%s'%(mangledName,params.AddParam(self.container.PrepareSQLValue(v))))
 	
 	def WhereSkiptokenClause(self,where,params):
 		"""Adds the entity constraint expression to a list of SQL expressions.
@@ -1984,7 +1987,7 @@ class SQLForeignKeyCollection(SQLNavigationCollection):
 				self.sourceName,
 				self.container.mangledNames[(self.fromEntity.entitySet.name,self.associationSetName,keyName)]))
 		return ' INNER JOIN %s AS %s ON '%(
-			self.container.mangledNames[(self.fromEntity.entitySet.name,)],self.sourceName)+string.join(join,', ')
+			self.container.mangledNames[(self.fromEntity.entitySet.name,)],self.sourceName)+string.join(join,' AND ')
 
 	def WhereClause(self,entity,params,useFilter=True,useSkip=False):
 		"""Overridden to add the constraint for entities linked from *fromEntity* only.
@@ -2245,7 +2248,7 @@ class SQLAssociationCollection(SQLNavigationCollection):
 				self.container.mangledNames[(self.entitySet.name,keyName)],
 				self.associationTableName,
 				self.container.mangledNames[(self.associationSetName,self.entitySet.name,self.toNavName,keyName)]))
-		return ' INNER JOIN %s ON '%self.associationTableName+string.join(join,', ')
+		return ' INNER JOIN %s ON '%self.associationTableName+string.join(join,' AND ')
 	
 	def WhereClause(self,entity,params,useFilter=True,useSkip=False):
 		"""Overridden to provide the *fromEntity* constraint in the auxiliary table."""
-- 
2.43.0


From e072ba3e0c3647f7692ab86208f0725e8da4d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:53 +0000
Subject: [PATCH 304/305] fix: SQL tables did not constrain 0..1 to 1 links to
 be unique

---
 pyslet/pyslet/odata2/sqlds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index b755246..38be2bd 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -1826,6 +1826,8 @@ class SQLEntityCollection(SQLCollectionBase):
 				string.join(fkNames,', '),
 				self.container.mangledNames[(targetSet.name,)],
 				string.join(kNames,', ')))
+			if unique:
+				constraints.append("UNIQUE (%s)"%string.join(fkNames,', '))
 		cols=cols+constraints
 		query.append(string.join(cols,u", "))
 		query.append(u')')
-- 
2.43.0


From cfb0783dc08e71ccb6ff22917ba877b358b58a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:53 +0000
Subject: [PATCH 305/305] fix: failed SQL inserts and updates left their first
 steps behind: reads committed the transaction in progress

---
 pyslet/pyslet/odata2/sqlds.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 38be2bd..22b9be5 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -147,6 +147,14 @@ class SQLTransaction(object):
 	as the above for the try, except and finally blocks.  The object
 	keeps track of these 'nested' transactions and delays the commit or
 	rollback until the outermost method invokes them."""
+	
+	writers={}
+	"""A mapping from the id of a connection to the transaction that has
+	changed something on it.  Connections are shared by the collections
+	in a thread, the other transactions on the same connection (such as
+	those that merely look up an entity) leave the commit or rollback to
+	this one."""
+
 	def __init__(self,api,dbc):
 		self.api=api			#: the database module
 		self.dbc=dbc			#: the database connection
@@ -175,14 +183,20 @@ class SQLTransaction(object):
 			parameterized values."""
 		self.cursor.execute(sqlCmd,params.params)
 		self.queryCount+=1
+		if not sqlCmd.startswith("SELECT"):
+			self.writers.setdefault(id(self.dbc),self)
+
+	def _Subordinate(self):
+		return self.writers.get(id(self.dbc),self) is not self
 	
 	def Commit(self):
 		"""Ends this transaction with a commit
 		
 		Nested transactions do nothing."""
-		if self.noCommit:
+		if self.noCommit or self._Subordinate():
 			return
 		self.dbc.commit()
+		self.writers.pop(id(self.dbc),None)
 			
 	def Rollback(self,err=None,swallowErr=False):
 		"""Calls the underlying database connection rollback method.
@@ -204,15 +218,16 @@ class SQLTransaction(object):
 		swallowErr
 			A flag (defaults to False) indicating that *err* should be
 			swallowed, rather than re-raised."""
-		if not self.noCommit:
+		if not self.noCommit and not self._Subordinate():
+			self.writers.pop(id(self.dbc),None)
 			try:
 				self.dbc.rollback()
 				if err is not None:
 					logging.info("Rollback invoked for transaction following error %s",str(err))
 			except self.api.NotSupportedError:
 				if err is not None:
-					if transaction.queryCount:
-						logging.error("Data Integrity Error on TABLE %s: Rollback invoked on a connection that does not support transactions after error %s",self.tableName,str(err))
+					if self.queryCount:
+						logging.error("Data Integrity Error: Rollback invoked on a connection that does not support transactions after error %s",str(err))
 					else:
 						logging.info("Query failed following error %s",str(err))
 				pass
@@ -231,6 +246,8 @@ class SQLTransaction(object):
 		if self.noCommit:
 			self.noCommit=self.noCommit-1
 		elif self.cursor is not None:
+			if not self._Subordinate():
+				self.writers.pop(id(self.dbc),None)
 			self.cursor.close()
 			self.cursor=None
 			self.queryCount=0
@@ -1359,8 +1376,10 @@ class SQLEntityCollection(SQLCollectionBase):
 			# point of INSERT, fkValues may have violated a unique
 			# constraint but we can't make that distinction at the
 			# moment.
+			entity.exists=False
 			raise edm.ConstraintError("InsertEntity failed for %s : %s"%(str(entity.GetLocation()),str(e)))
 		except Exception as e:
+			entity.exists=False
 			transaction.Rollback(e)
 		finally:
 			transaction.Close()
@@ -1429,7 +1448,7 @@ class SQLEntityCollection(SQLCollectionBase):
 					if not targetEntity.exists:
 						# add this entity to it's base collection
 						with targetSet.OpenCollection() as targetCollection:
-							targetCollection.InsertEntitySQL(targetEntity,linkEnd.otherEnd,transaction)
+							targetCollection.InsertEntitySQL(targetEntity,linkEnd.otherEnd,transaction=transaction)
 				# Finally, we have a target entity, add the foreign key to fkValues
 				for keyName in targetSet.keys:
 					fkValues.append((self.container.mangledNames[(self.entitySet.name,associationSetName,keyName)],targetEntity[keyName]))
@@ -1501,10 +1520,10 @@ class SQLEntityCollection(SQLCollectionBase):
 									targetFKValues.append((self.container.mangledNames[(targetSet.name,associationSetName,keyName)],entity[keyName]))
 								if not dv.isCollection:
 									navCollection.ClearLinks(transaction)
-								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd,targetFKValues,transaction)
+								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd,targetFKValues,transaction=transaction)
 							else:
 								# foreign keys are in an auxiliary table
-								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd)
+								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd,transaction=transaction)
 								if dv.isCollection:
 									navCollection.InsertLink(binding,transaction)
 								else:
-- 
2.43.0

