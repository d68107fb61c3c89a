From 6ec96a15cfe4b895a7f1d17563b1f19346089c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 01/65] fix: compare date-times by the instant they denote

---
 src/rbus/rbus_value.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index d95405e..46589fd 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -949,33 +949,28 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_DATETIME:
     {
-        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)))
+        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)) == 0)
             return 0;
 
-        /*apply timezone and diff the times*/
+        /*convert both to UTC and diff the times: a zone east of UTC is ahead of it*/
         rbusDateTime_t dt1 = *rbusValue_GetTime(v1);
         rbusDateTime_t dt2 = *rbusValue_GetTime(v2);
 
-        dt1.m_time.tm_hour += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzhour * -1 : dt1.m_tz.m_tzhour);
-        dt1.m_time.tm_min += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzmin * -1 : dt1.m_tz.m_tzmin);
-        if(dt1.m_time.tm_min < 0)
-            dt1.m_time.tm_min += 60;
-        if(dt1.m_time.tm_min >= 60)
-            dt1.m_time.tm_min -= 60;
+        dt1.m_time.tm_hour -= (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzhour * -1 : dt1.m_tz.m_tzhour);
+        dt1.m_time.tm_min -= (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzmin * -1 : dt1.m_tz.m_tzmin);
 
-        dt2.m_time.tm_hour += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzhour * -1 : dt2.m_tz.m_tzhour);
-        dt2.m_time.tm_min += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzmin * -1 : dt2.m_tz.m_tzmin);
-        if(dt2.m_time.tm_min < 0)
-            dt2.m_time.tm_min += 60;
-        if(dt2.m_time.tm_min >= 60)
-            dt2.m_time.tm_min -= 60;
+        dt2.m_time.tm_hour -= (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzhour * -1 : dt2.m_tz.m_tzhour);
+        dt2.m_time.tm_min -= (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzmin * -1 : dt2.m_tz.m_tzmin);
 
         struct tm t1m, t2m;
+        memset(&t1m, 0, sizeof(t1m));
+        memset(&t2m, 0, sizeof(t2m));
         rbusValue_UnMarshallRBUStoTM(&t1m, &dt1);
         rbusValue_UnMarshallRBUStoTM(&t2m, &dt2);
 
-        time_t t1 = mktime(&t1m);
-        time_t t2 = mktime(&t2m);
+        /*timegm carries minutes and hours that are out of range*/
+        time_t t1 = timegm(&t1m);
+        time_t t2 = timegm(&t2m);
         double diffSecs = difftime(t1, t2);
 
         if(diffSecs == 0)
-- 
2.43.0


From 16ab96e842bb02ec56230b5a6f0740b31fda3316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 02/65] fix: compare byte arrays of different length without
 reading past the shorter

---
 src/rbus/rbus_value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 46589fd..afc3918 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -940,7 +940,8 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_BYTES:
     {
-        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, v1->d.bytes->posWrite);
+        int n = v1->d.bytes->posWrite < v2->d.bytes->posWrite ? v1->d.bytes->posWrite : v2->d.bytes->posWrite;
+        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, n);
         if(v1->d.bytes->posWrite < v2->d.bytes->posWrite && c == 0)
             c = -1;
         else if(v1->d.bytes->posWrite > v2->d.bytes->posWrite && c == 0)
-- 
2.43.0


From fa4202c0028bac5c1b3659b5aed1212b87366035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 03/65] fix: handle NULL strings and byte arrays in compare,
 copy, encode, text conversion

---
 src/rbus/rbus_value.c | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index afc3918..1cd97d0 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -229,6 +229,15 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
         return NULL;
     if(v->type == RBUS_NONE)
         return NULL;
+    if((v->type == RBUS_STRING || v->type == RBUS_BYTES) && !v->d.bytes)
+    {
+        /*SetString/SetBytes was called with NULL*/
+        if(!buf)
+            return rt_calloc(1, 1);
+        if(buflen > 0)
+            buf[0] = 0;
+        return buf;
+    }
 
     if (buf)
     {
@@ -633,7 +642,7 @@ uint8_t const* rbusValue_GetV(rbusValue_t v)
     {
     case RBUS_STRING:
     case RBUS_BYTES:
-        return v->d.bytes->data;
+        return v->d.bytes ? v->d.bytes->data : NULL;
     default:
         return (uint8_t const*)&v->d.b;
     }
@@ -645,7 +654,7 @@ uint32_t rbusValue_GetL(rbusValue_t v)
         return 1;
     switch(v->type)
     {
-    case RBUS_STRING:       return v->d.bytes->posWrite; 
+    case RBUS_STRING:       return v->d.bytes ? v->d.bytes->posWrite : 0;
     case RBUS_BOOLEAN:      return sizeof(bool);
     case RBUS_INT32:        return sizeof(int32_t);
     case RBUS_UINT32:       return sizeof(uint32_t);
@@ -660,7 +669,7 @@ uint32_t rbusValue_GetL(rbusValue_t v)
     case RBUS_SINGLE:       return sizeof(float);
     case RBUS_DOUBLE:       return sizeof(double);
     case RBUS_DATETIME:     return sizeof(rbusDateTime_t);
-    case RBUS_BYTES:        return v->d.bytes->posWrite;
+    case RBUS_BYTES:        return v->d.bytes ? v->d.bytes->posWrite : 0;
     default:                return 0;
     }
 }
@@ -674,7 +683,7 @@ void rbusValue_SetTLV(rbusValue_t v, rbusValueType_t type, uint32_t length, void
     {
     /*Calling rbusValue_SetString/rbusValue_SetBuffer so the value's internal buffer is created.*/
     case RBUS_STRING:
-        rbusValue_SetString(v, (char const*)value);
+        rbusValue_SetString(v, length ? (char const*)value : NULL);
         break;
     case RBUS_BYTES:
         rbusValue_SetBytes(v, value, length);
@@ -730,6 +739,11 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
             rbusValue_Release(*value);
             return -1;
         }
+        if(length == 0)/*NULL string*/
+        {
+            rbusValue_SetString(current, NULL);
+            return length;
+        }
         assert(strlen((char const*)buff->data + buff->posRead) + 1 == (size_t)length);/*length should captures null term*/
         rbusValue_SetString(current, (char const*)buff->data + buff->posRead);
         buff->posRead += length;
@@ -809,6 +823,11 @@ void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff)
     switch(value->type)
     {
     case RBUS_STRING:/*length should include null term*/
+        if(!value->d.bytes)
+        {
+            rbusBuffer_WriteStringTLV(buff, "", 0);
+            break;
+        }
         assert(value->d.bytes->data);
         assert(value->d.bytes->posWrite <= value->d.bytes->lenAlloc);
         assert(value->d.bytes->posRead == 0);
@@ -816,6 +835,11 @@ void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff)
         rbusBuffer_WriteStringTLV(buff, (char const*)value->d.bytes->data, value->d.bytes->posWrite);
         break;
     case RBUS_BYTES:
+        if(!value->d.bytes)
+        {
+            rbusBuffer_WriteBytesTLV(buff, (uint8_t*)"", 0);
+            break;
+        }
         assert(value->d.bytes->data);
         assert(value->d.bytes->posWrite <= value->d.bytes->lenAlloc);
         assert(value->d.bytes->posRead == 0);
@@ -932,6 +956,10 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
             return 1;
     }
 
+    /*the buffer is NULL in the case SetString/SetBytes was called with NULL*/
+    if((v1->type == RBUS_STRING || v1->type == RBUS_BYTES) && (!v1->d.bytes || !v2->d.bytes))
+        return v1->d.bytes ? 1 : (v2->d.bytes ? -1 : 0);
+
     switch(v1->type)
     {
     case RBUS_STRING:
@@ -988,7 +1016,7 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
         else if(rbusValue_GetProperty(v1))
             return 1;
         else
-            return -1;
+            return rbusValue_GetProperty(v2) ? -1 : 0;
     }
     case RBUS_OBJECT:
     {
@@ -997,7 +1025,7 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
         else if(rbusValue_GetObject(v1))
             return 1;
         else
-            return -1;
+            return rbusValue_GetObject(v2) ? -1 : 0;
     }
     case RBUS_NONE:
     default:
-- 
2.43.0


From f503fa9cd6774f818479c7ce70ee962027c496a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 04/65] fix: bound buffer reads and value decoding by the data
 written

---
 src/rbus/rbus_buffer.c | 18 +++++++++++-------
 src/rbus/rbus_value.c  | 14 ++++++++++----
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/rbus/rbus_buffer.c b/src/rbus/rbus_buffer.c
index 5241cd8..65884ef 100644
--- a/src/rbus/rbus_buffer.c
+++ b/src/rbus/rbus_buffer.c
@@ -257,7 +257,7 @@ int rbusBuffer_Read(rbusBuffer_t const buff, void* data, int len)
 {
     if((!buff) || (!data))
         return -1;
-    if(!(buff->posRead + len < buff->lenAlloc))
+    if(len < 0 || len > buff->posWrite - buff->posRead)
     {
         RBUSLOG_WARN("rbusBuffer_Read failed");
         return -1;
@@ -271,15 +271,19 @@ int rbusBuffer_ReadString(rbusBuffer_t const buff, char** s, int* len)
 {
     if(!buff)
         return -1;
-    *len = buff->posRead;
-    *s = rt_malloc(buff->posRead+1);/*TODO is +1 needed?*/
+    *len = buff->posWrite - buff->posRead;
+    *s = rt_malloc(*len + 1);
+    (*s)[*len] = 0;
     return rbusBuffer_Read(buff, *s, *len);
 }
 
 int rbusBuffer_ReadBoolean(rbusBuffer_t const buff, bool* b)
 {
     assert(sizeof(bool) == 1);/*otherwise we need to handle endian*/
-    return rbusBuffer_Read(buff, b, sizeof(bool));
+    uint8_t temp = 0;
+    int rc = rbusBuffer_Read(buff, &temp, sizeof(bool));
+    *b = (temp != 0);
+    return rc;
 }
 
 int rbusBuffer_ReadChar(rbusBuffer_t const buff, char* c)
@@ -393,7 +397,7 @@ int rbusBuffer_ReadBytes(rbusBuffer_t const buff, uint8_t** bytes, int* len)
 {
     if(!buff)
         return -1;
-    *len = buff->posWrite;
-    *bytes = rt_malloc(buff->posWrite);
-    return rbusBuffer_Read(buff, bytes, buff->posWrite);
+    *len = buff->posWrite - buff->posRead;
+    *bytes = rt_malloc(*len + 1);
+    return rbusBuffer_Read(buff, *bytes, *len);
 }
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 1cd97d0..0955039 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -733,7 +733,7 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
     {
     /*Calling rbusValue_SetString/rbusValue_SetBytes so the value's internal buffer is created.*/
     case RBUS_STRING:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        if(length > buff->posWrite - buff->posRead)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
@@ -744,12 +744,18 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
             rbusValue_SetString(current, NULL);
             return length;
         }
-        assert(strlen((char const*)buff->data + buff->posRead) + 1 == (size_t)length);/*length should captures null term*/
+        /*length should captures null term*/
+        if(memchr(buff->data + buff->posRead, 0, length) != buff->data + buff->posRead + length - 1)
+        {
+            RBUSLOG_WARN("rbusValue_Decode failed");
+            rbusValue_Release(*value);
+            return -1;
+        }
         rbusValue_SetString(current, (char const*)buff->data + buff->posRead);
         buff->posRead += length;
         return length;
     case RBUS_BYTES:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        if(length > buff->posWrite - buff->posRead)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
@@ -802,8 +808,8 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
         rc = rbusBuffer_ReadDateTime(buff, &current->d.tv);
         break;
     default:
+        RBUSLOG_WARN("rbusValue_Decode failed: unknown type %d", type);
         rbusValue_Release(*value);
-        assert(false);
         return -1;
     }
     if (rc != 0)
-- 
2.43.0


From 50b78fc4e293e2d9031a902a1799c0a1234e555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 05/65] fix: compare 64 bit integers exactly

---
 src/rbus/rbus_value.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 0955039..33c0b8b 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -932,6 +932,30 @@ static double rbusValue_CoerceNumericToDouble(rbusValue_t v)
     }
 }
 
+/*get an integral value as sign and 64 bits; false if the value is not integral*/
+static bool rbusValue_CoerceIntegral(rbusValue_t v, bool* negative, uint64_t* bits)
+{
+    int64_t i = 0;
+    switch(v->type)
+    {
+    case RBUS_BOOLEAN:  *bits = rbusValue_GetBoolean(v); break;
+    case RBUS_BYTE:     *bits = rbusValue_GetByte(v); break;
+    case RBUS_UINT8:    *bits = rbusValue_GetUInt8(v); break;
+    case RBUS_UINT16:   *bits = rbusValue_GetUInt16(v); break;
+    case RBUS_UINT32:   *bits = rbusValue_GetUInt32(v); break;
+    case RBUS_UINT64:   *bits = rbusValue_GetUInt64(v); break;
+    case RBUS_CHAR:     i = rbusValue_GetChar(v); *bits = (uint64_t)i; break;
+    case RBUS_INT8:     i = rbusValue_GetInt8(v); *bits = (uint64_t)i; break;
+    case RBUS_INT16:    i = rbusValue_GetInt16(v); *bits = (uint64_t)i; break;
+    case RBUS_INT32:    i = rbusValue_GetInt32(v); *bits = (uint64_t)i; break;
+    case RBUS_INT64:    i = rbusValue_GetInt64(v); *bits = (uint64_t)i; break;
+    default:
+        return false;
+    }
+    *negative = (i < 0);
+    return true;
+}
+
 int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
 {
     if(v1 == v2)
@@ -943,10 +967,21 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     /*compare integral values being type insensitive*/
     if(v1->type <= RBUS_DOUBLE && v2->type <= RBUS_DOUBLE)
     {
+        bool n1, n2;
+        uint64_t u1, u2;
+
+        /*a double cannot hold every 64 bit integer*/
+        if(rbusValue_CoerceIntegral(v1, &n1, &u1) && rbusValue_CoerceIntegral(v2, &n2, &u2))
+        {
+            if(n1 != n2)
+                return n1 ? -1 : 1;
+            return u1 == u2 ? 0 : (u1 < u2 ? -1 : 1);
+        }
+
         double d1 = rbusValue_CoerceNumericToDouble(v1);
         double d2 = rbusValue_CoerceNumericToDouble(v2);
 
-        if(d1 == d2)
+        if(d1 == d2 || (isnan(d1) && isnan(d2)))
             return 0;
         else if(d1 < d2)
             return -1;
-- 
2.43.0


From 04e32f1969255a5b6c3d63ffd94eb7a873757d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 06/65] fix: keep text rendering of strings and byte arrays
 inside the caller's buffer

---
 src/rbus/rbus_value.c | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 33c0b8b..1c091a7 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -242,21 +242,7 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     if (buf)
     {
       p = buf;
-      n = (int)buflen;
-
-        switch(v->type)
-        {
-        case RBUS_STRING:
-            if(n > v->d.bytes->posWrite)
-                n = v->d.bytes->posWrite;
-            break;
-        case RBUS_BYTES:
-            if(n > v->d.bytes->posWrite + 1)
-                n = v->d.bytes->posWrite + 1;
-            break;
-        default:
-            break;
-        }
+      n = buflen > INT_MAX ? INT_MAX : (int)buflen;
     }
     else
     {
@@ -320,14 +306,15 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     switch(v->type)
     {
     case RBUS_STRING:
-        strncpy(p, (char const* ) v->d.bytes->data, n);
+        snprintf(p, n, "%s", (char const* ) v->d.bytes->data);
         break;
     case RBUS_BYTES:
     {
         int i = 0;
-        for (i = 0; i < v->d.bytes->posWrite; i++)
-            sprintf (&p[i * 2], "%02X", v->d.bytes->data[i]);
-        p[2 * v->d.bytes->posWrite] = 0;
+        if (n > 0)
+            p[0] = 0;
+        for (i = 0; i < v->d.bytes->posWrite && i * 2 < n; i++)
+            snprintf (&p[i * 2], n - i * 2, "%02X", v->d.bytes->data[i]);
         break;
     }
     case RBUS_BOOLEAN:
-- 
2.43.0


From 2e60ffc0123cc135a0e4eda3238474fd8cfc9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 07/65] fix: do not leave date-time fields uninitialised when
 parsing text

---
 src/rbus/rbus_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 1c091a7..4555c0b 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1290,7 +1290,7 @@ bool rbusValue_SetFromString(rbusValue_t value, rbusValueType_t type, const char
         }
     case RBUS_DATETIME:
         {
-            struct tm tv;
+            struct tm tv = {0};
             rbusDateTime_t tvm = {{0},{0}};
             if(0 != strncmp(pStringInput,"0000-",5)) {
                 char *pRet = NULL;
-- 
2.43.0


From acaa6549e1aa0318f6bbf02e7b44d317a727ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 08/65] fix: refuse negative text for unsigned values also
 after white space

---
 src/rbus/rbus_value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 4555c0b..238df7c 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1134,7 +1134,8 @@ bool rbusValue_SetFromString(rbusValue_t value, rbusValueType_t type, const char
     if(value == NULL)
         return false;
 
-    char sign = *pStringInput;
+    /*strtoul skips leading white space and negates what follows a '-'*/
+    char sign = pStringInput[strspn(pStringInput, " \t\n\v\f\r")];
     switch(type)
     {
     case RBUS_STRING:
-- 
2.43.0


From 89173399c5d989c54db13a05aa290a57ecf5e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 09/65] fix: retain the new item before releasing the old one
 when relinking

---
 src/rbus/rbus_object.c   | 30 ++++++++++++++++++------------
 src/rbus/rbus_property.c | 20 ++++++++++++--------
 src/rbus/rbus_value.c    | 17 +++++++++++------
 3 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index 68cef82..319a485 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -263,11 +263,13 @@ rbusProperty_t rbusObject_GetProperties(rbusObject_t object)
 void rbusObject_SetProperties(rbusObject_t object, rbusProperty_t properties)
 {
     VERIFY_NULL(object);
-    if(object->properties)
-        rbusProperty_Release(object->properties);
+    rbusProperty_t old = object->properties;
+    /*retain before releasing because the old list may hold the last reference to the new one*/
+    if(properties)
+        rbusProperty_Retain(properties);
     object->properties = properties;
-    if(object->properties)
-        rbusProperty_Retain(object->properties);
+    if(old)
+        rbusProperty_Release(old);
 }
 
 rbusProperty_t rbusObject_GetProperty(rbusObject_t object, char const* name)
@@ -413,11 +415,13 @@ rbusObject_t rbusObject_GetChildren(rbusObject_t object)
 void rbusObject_SetChildren(rbusObject_t object, rbusObject_t children)
 {
     VERIFY_NULL(object);
-    if(object->children)
-        rbusObject_Release(object->children);
+    rbusObject_t old = object->children;
+    /*retain before releasing because the old list may hold the last reference to the new one*/
+    if(children)
+        rbusObject_Retain(children);
     object->children = children;
-    if(object->children)
-        rbusObject_Retain(object->children);
+    if(old)
+        rbusObject_Release(old);
 }
 
 rbusObject_t rbusObject_GetNext(rbusObject_t object)
@@ -430,11 +434,13 @@ rbusObject_t rbusObject_GetNext(rbusObject_t object)
 void rbusObject_SetNext(rbusObject_t object, rbusObject_t next)
 {
     VERIFY_NULL(object);
-    if(object->next)
-        rbusObject_Release(object->next);
+    rbusObject_t old = object->next;
+    /*retain before releasing because the old list may hold the last reference to the new one*/
+    if(next)
+        rbusObject_Retain(next);
     object->next = next;
-    if(object->next)
-        rbusObject_Retain(object->next);
+    if(old)
+        rbusObject_Release(old);
 }
 
 rbusObjectType_t rbusObject_GetType(rbusObject_t object)
diff --git a/src/rbus/rbus_property.c b/src/rbus/rbus_property.c
index 368de22..df53e25 100644
--- a/src/rbus/rbus_property.c
+++ b/src/rbus/rbus_property.c
@@ -170,11 +170,13 @@ rbusValue_t rbusProperty_GetValue(rbusProperty_t property)
 void rbusProperty_SetValue(rbusProperty_t property, rbusValue_t value)
 {
     VERIFY_NULL(property);
-    if(property->value)
-        rbusValue_Release(property->value);
+    rbusValue_t old = property->value;
+    /*retain before releasing because the old list may hold the last reference to the new one*/
+    if(value)
+        rbusValue_Retain(value);
     property->value = value;
-    if(property->value)
-        rbusValue_Retain(property->value);
+    if(old)
+        rbusValue_Release(old);
 }
 
 rbusProperty_t rbusProperty_GetNext(rbusProperty_t property)
@@ -185,11 +187,13 @@ rbusProperty_t rbusProperty_GetNext(rbusProperty_t property)
 void rbusProperty_SetNext(rbusProperty_t property, rbusProperty_t next)
 {
     VERIFY_NULL(property);
-    if(property->next)
-        rbusProperty_Release(property->next);
+    rbusProperty_t old = property->next;
+    /*retain before releasing because the old list may hold the last reference to the new one*/
+    if(next)
+        rbusProperty_Retain(next);
     property->next = next;
-    if(property->next)
-        rbusProperty_Retain(property->next);
+    if(old)
+        rbusProperty_Release(old);
 }
 
 void rbusProperty_Append(rbusProperty_t property, rbusProperty_t back)
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 238df7c..df85d20 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -604,21 +604,23 @@ void rbusValue_SetBytes(rbusValue_t v, uint8_t const* p, int len)
 void rbusValue_SetProperty(rbusValue_t v, struct _rbusProperty* property)
 {
     VERIFY_NULL(v);
+    /*retain before releasing because the old value may hold the last reference to the new one*/
+    if(property)
+        rbusProperty_Retain(property);
     rbusValue_FreeInternal(v);
     v->type = RBUS_PROPERTY;
     v->d.property = property;
-    if(v->d.property)
-        rbusProperty_Retain(v->d.property);
 }
 
 void rbusValue_SetObject(rbusValue_t v, struct _rbusObject* object)
 {
     VERIFY_NULL(v);
+    /*retain before releasing because the old value may hold the last reference to the new one*/
+    if(object)
+        rbusObject_Retain(object);
     rbusValue_FreeInternal(v);
     v->type = RBUS_OBJECT;
     v->d.object = object;
-    if(v->d.object)
-        rbusObject_Retain(v->d.object);
 }
 
 uint8_t const* rbusValue_GetV(rbusValue_t v)
@@ -1063,9 +1065,12 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
 
 void rbusValue_SetPointer(rbusValue_t* value1, rbusValue_t value2)
 {
-    rbusValue_Release(*value1);
+    rbusValue_t old = *value1;
+    if(value2)
+        rbusValue_Retain(value2);
     *value1 = value2;
-    rbusValue_Retain(*value1);
+    if(old)
+        rbusValue_Release(old);
 }
 
 void rbusValue_Swap(rbusValue_t* v1, rbusValue_t* v2)
-- 
2.43.0


From 3d8ed49f113c36b6de0f180d19f4e485d7497276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 10/65] fix: keep the property list acyclic when a property is
 set again on its object

---
 src/rbus/rbus_object.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index 319a485..f8ec781 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -307,6 +307,10 @@ void rbusObject_SetProperty(rbusObject_t object, rbusProperty_t newProp)
                 oldProp = NULL;
             }
         }
+        if(oldProp == newProp)/*the very same property is already in the list*/
+        {
+            return;
+        }
         if(oldProp)/*existing property found by name*/
         {   /*replace oldProp with newProp, preserving the rest of the property list*/
 
-- 
2.43.0


From 14508a366dba66d4f8b5438d0d85efd8be0dc9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 11/65] fix: compare unnamed properties and objects without
 dereferencing NULL

---
 src/rbus/rbus_object.c   | 18 +++++++++++++-----
 src/rbus/rbus_property.c | 10 +++++++++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index f8ec781..f43c809 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -110,6 +110,14 @@ void rbusObject_Releases(int count, ...)
     va_end(vl);
 }
 
+/*names are optional: an unnamed item equals another unnamed item and sorts before a named one*/
+static int compareNames(char const* name1, char const* name2)
+{
+    if(!name1 || !name2)
+        return (name1 ? 1 : 0) - (name2 ? 1 : 0);
+    return strcmp(name1, name2);
+}
+
 int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursive)
 {
     int rc;
@@ -127,7 +135,7 @@ int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursiv
     if((object1!=NULL)&&(object2==NULL))
         return 1;
 
-    rc = strcmp(object1->name, object2->name);
+    rc = compareNames(object1->name, object2->name);
     if(rc != 0)
         return rc;
 
@@ -141,7 +149,7 @@ int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursiv
         while(prop2)
         {
             prop2Name = rbusProperty_GetName(prop2);
-            if(strcmp(prop1Name, prop2Name)==0)
+            if(compareNames(prop1Name, prop2Name)==0)
             {
                 rc = rbusProperty_Compare(prop1, prop2);
                 if(rc != 0)
@@ -167,7 +175,7 @@ int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursiv
         {
             prop1Name = rbusProperty_GetName(prop1);
 
-            if(strcmp(prop2Name, prop1Name)==0)
+            if(compareNames(prop2Name, prop1Name)==0)
             {
                 match = 1;
                 break;
@@ -198,7 +206,7 @@ int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursiv
             while(obj2)
             {
                 obj2Name = rbusObject_GetName(obj2);
-                if(strcmp(obj1Name, obj2Name)==0)
+                if(compareNames(obj1Name, obj2Name)==0)
                 {
                     rc = rbusObject_Compare(obj1, obj2, true);
                     if(rc != 0)
@@ -222,7 +230,7 @@ int rbusObject_Compare(rbusObject_t object1, rbusObject_t object2, bool recursiv
             while(obj1)
             {
                 obj1Name = rbusObject_GetName(obj1);
-                if(strcmp(obj2Name, obj1Name)==0)
+                if(compareNames(obj2Name, obj1Name)==0)
                 {
                     match = 1;
                     break;
diff --git a/src/rbus/rbus_property.c b/src/rbus/rbus_property.c
index df53e25..eb97e44 100644
--- a/src/rbus/rbus_property.c
+++ b/src/rbus/rbus_property.c
@@ -130,6 +130,14 @@ void rbusProperty_Copy(rbusProperty_t destination, rbusProperty_t source)
 }
 #endif
 
+/*names are optional: an unnamed item equals another unnamed item and sorts before a named one*/
+static int compareNames(char const* name1, char const* name2)
+{
+    if(!name1 || !name2)
+        return (name1 ? 1 : 0) - (name2 ? 1 : 0);
+    return strcmp(name1, name2);
+}
+
 int rbusProperty_Compare(rbusProperty_t property1, rbusProperty_t property2)
 {
     int rc;
@@ -139,7 +147,7 @@ int rbusProperty_Compare(rbusProperty_t property1, rbusProperty_t property2)
     if((!property1)||(!property2))
         return -1;
 
-    rc = strcmp(property1->name, property2->name);
+    rc = compareNames(property1->name, property2->name);
     if(rc)
         return rc;/*return strcmp result so we can use rbusProperty_Compare to sort properties by name*/
 
-- 
2.43.0


From 3915726a950dbc6cf9131f86fa1d2ae46e6ae831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 12/65] fix: release a nested property or object when its value
 becomes a string or bytes

---
 src/rbus/rbus_value.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index df85d20..36b8e9c 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -562,6 +562,7 @@ static void rbusValue_SetBufferData(rbusValue_t v, const void* data, int len, rb
     }
     else
     {
+        rbusValue_FreeInternal(v);
         rbusBuffer_Create(&v->d.bytes);
     }
     rbusBuffer_Write(v->d.bytes, data, len);
-- 
2.43.0


From 976d0b24d8efffe6c655e5a337382b129e577e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 13/65] fix: decode NOT filters and refuse unknown filter kinds

---
 src/rbus/rbus_filter.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 1edc8bf..16d319e 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -230,7 +230,8 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
         rbusFilter_Encode(filter->e.logic.left, buff);
-        rbusFilter_Encode(filter->e.logic.right, buff);
+        if(filter->e.logic.op != RBUS_FILTER_OPERATOR_NOT)/*NOT only has a left side*/
+            rbusFilter_Encode(filter->e.logic.right, buff);
     }
 }
 
@@ -243,7 +244,7 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
     rbusFilter_RelationOperator_t relOp;
     rbusFilter_LogicOperator_t logOp;
     rbusValue_t val;
-    rbusFilter_t left, right;
+    rbusFilter_t left = NULL, right = NULL;
 
     if(rbusBuffer_ReadUInt16(buff, &type) < 0)
         return -1;
@@ -291,12 +292,21 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
             return -1;
         if(rbusFilter_Decode(&left, buff) < 0)
             return -1;
-        if(rbusFilter_Decode(&right, buff) < 0)
+        if(logOp != RBUS_FILTER_OPERATOR_NOT && rbusFilter_Decode(&right, buff) < 0)
+        {
+            rbusFilter_Release(left);
             return -1;
+        }
 
         rbusFilter_InitLogic(&filter, logOp, left, right);
         rbusFilter_Release(left);
-        rbusFilter_Release(right);
+        if(right)
+            rbusFilter_Release(right);
+    }
+    else
+    {
+        RBUSLOG_WARN("rbusFilter_Decode failed");
+        return -1;
     }
     *filterOut = filter;
     return 0;
-- 
2.43.0


From 1d8adb8438e24ad86691cee7e76faf5d6c8ab6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 14/65] fix: fill the caller's buffer when cutting a string, as
 callers expect

---
 src/rbus/rbus_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 36b8e9c..545f50a 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -306,7 +306,7 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     switch(v->type)
     {
     case RBUS_STRING:
-        snprintf(p, n, "%s", (char const* ) v->d.bytes->data);
+        strncpy(p, (char const* ) v->d.bytes->data, n > v->d.bytes->posWrite ? v->d.bytes->posWrite : n);
         break;
     case RBUS_BYTES:
     {
-- 
2.43.0


From ec846e16a4ea1ad0ee394b0e1e072728bcfccc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 15/65] fix: refuse malformed fields when reading values,
 properties, objects and requests from a message

---
 src/core/rbuscore_message.c |  20 +-
 src/rbus/rbus.c             | 398 ++++++++++++++++++++++++------------
 src/rbus/rbus_element.c     |   4 +-
 src/rbus/rbus_value.c       |  19 +-
 4 files changed, 303 insertions(+), 138 deletions(-)

diff --git a/src/core/rbuscore_message.c b/src/core/rbuscore_message.c
index 187cbab..d39631c 100644
--- a/src/core/rbuscore_message.c
+++ b/src/core/rbuscore_message.c
@@ -190,6 +190,12 @@ rtError rbusMessage_SetString(rbusMessage message, char const* value)
 rtError rbusMessage_GetString(rbusMessage const message, char const** value)
 {
     VERIFY_UNPACK(MSGPACK_OBJECT_STR);
+    /*the terminating null is part of what is packed, and the caller relies on it*/
+    if(message->upk.data.via.str.size == 0 || message->upk.data.via.str.ptr[message->upk.data.via.str.size - 1] != '\0')
+    {
+        RBUSCORELOG_ERROR("%s string is not terminated", __FUNCTION__);
+        return RT_FAIL;
+    }
     *value = message->upk.data.via.str.ptr;
     return RT_OK;
 }
@@ -277,9 +283,17 @@ void rbusMessage_BeginMetaSectionRead(rbusMessage message)
 {
     int section_offset = 0;
     message->meta_offset = message->read_offset; //For safekeeping.
-    message->read_offset = message->sbuf.size - 5;
-    rbusMessage_GetInt32(message, &section_offset);
-    message->read_offset = section_offset;
+    if(message->sbuf.size >= 5)
+    {
+        message->read_offset = message->sbuf.size - 5;
+        if(rbusMessage_GetInt32(message, &section_offset) == RT_OK && section_offset >= 0)
+        {
+            message->read_offset = section_offset;
+            return;
+        }
+    }
+    RBUSCORELOG_ERROR("%s no meta section", __FUNCTION__);
+    message->read_offset = message->sbuf.size;
 }
 
 void rbusMessage_EndMetaSectionRead(rbusMessage message)
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a063aad..1f1fa92 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -482,9 +482,9 @@ static bool _parse_rbusData_to_value (char const* pBuff, rbusLegacyDataType_t le
 rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg);
 void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg);
 rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg);
-void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg);
+rbusError_t rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg);
 void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg);
-void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg);
+rbusError_t rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg);
 void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg);
 void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter, uint32_t* interval,
         uint32_t* duration, int32_t* componentId, rbusMessage msg);
@@ -493,12 +493,22 @@ void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter, uint
 void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg);
 void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg);
 
+/*A message comes from another process, so nothing about its content can be relied on.
+  The functions below always initialize what they are asked for. They return
+    RBUS_ERROR_INVALID_INPUT if a legacy value was there but its text has no valid content, and
+    RBUS_ERROR_BUS_ERROR if the next field is missing or not what it has to be, so that
+    nothing after it can be read either.
+  Nested items are read recursively, and this limits how deep that can get.*/
+#define RBUS_MESSAGE_MAX_NESTING 256
+static __thread int g_messageNesting = 0;
+
 rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 {
-    uint8_t const* data;
+    uint8_t const* data = NULL;
     bool rc = true;
-    uint32_t length;
-    int type;
+    uint32_t length = 0;
+    int type = RBUS_NONE;
+    rbusError_t err = RBUS_ERROR_SUCCESS;
     char const* pBuffer = NULL;
 
     if (!value)
@@ -509,13 +519,15 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 
     rbusValue_Init(value);
 
-    rbusMessage_GetInt32(msg, (int*) &type);
+    if(rbusMessage_GetInt32(msg, (int*) &type) != RT_OK)
+        return RBUS_ERROR_BUS_ERROR;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> value pop type=%d", type);
 #endif
     if(type>=RBUS_LEGACY_STRING && type<=RBUS_LEGACY_NONE)
     {
-        rbusMessage_GetString(msg, &pBuffer);
+        if(rbusMessage_GetString(msg, &pBuffer) != RT_OK)
+            return RBUS_ERROR_BUS_ERROR;
         RBUSLOG_DEBUG("Received Param Value in string : [%s]", pBuffer);
         rc = _parse_rbusData_to_value (pBuffer, type, *value);
         if(!rc)
@@ -529,7 +541,7 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
         if(type == RBUS_OBJECT)
         {
             rbusObject_t obj;
-            rbusObject_initFromMessage(&obj, msg);
+            err = rbusObject_initFromMessage(&obj, msg);
             rbusValue_SetObject(*value, obj);
             rbusObject_Release(obj);
         }
@@ -537,62 +549,73 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
         if(type == RBUS_PROPERTY)
         {
             rbusProperty_t prop;
-            rbusPropertyList_initFromMessage(&prop, msg);
+            err = rbusPropertyList_initFromMessage(&prop, msg);
             rbusValue_SetProperty(*value, prop);
             rbusProperty_Release(prop);
         }
         else
         {
-            int32_t ival;
-            int64_t i64;
-            double fval;
+            int32_t ival = 0;
+            int64_t i64 = 0;
+            double fval = 0;
+            rtError read;
+
+            switch(type)
+            {
+                case RBUS_INT16:
+                case RBUS_UINT16:
+                case RBUS_INT32:
+                case RBUS_UINT32:
+                    read = rbusMessage_GetInt32(msg, &ival);
+                    break;
+                case RBUS_INT64:
+                case RBUS_UINT64:
+                    read = rbusMessage_GetInt64(msg, &i64);
+                    break;
+                case RBUS_SINGLE:
+                case RBUS_DOUBLE:
+                    read = rbusMessage_GetDouble(msg, &fval);
+                    break;
+                default:
+                    read = rbusMessage_GetBytes(msg, &data, &length);
+                    break;
+            }
+            if(read != RT_OK)
+                return RBUS_ERROR_BUS_ERROR;
 
             switch(type)
             {
                 case RBUS_INT16:
-                    rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetInt16(*value, (int16_t)ival);
                     break;
                 case RBUS_UINT16:
-                    rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetUInt16(*value, (uint16_t)ival);
                     break;
                 case RBUS_INT32:
-                    rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetInt32(*value, (int32_t)ival);
                     break;
                 case RBUS_UINT32:
-                    rbusMessage_GetInt32(msg, &ival);
                     rbusValue_SetUInt32(*value, (uint32_t)ival);
-
                     break;
                 case RBUS_INT64:
-                {
-                    rbusMessage_GetInt64(msg, &i64);
                     rbusValue_SetInt64(*value, (int64_t)i64);
                     break;
-                }
                 case RBUS_UINT64:
-                {
-                    rbusMessage_GetInt64(msg, &i64);
                     rbusValue_SetUInt64(*value, (uint64_t)i64);
                     break;
-                }
                 case RBUS_SINGLE:
-                    rbusMessage_GetDouble(msg, &fval);
                     rbusValue_SetSingle(*value, (float)fval);
                     break;
                 case RBUS_DOUBLE:
-                    rbusMessage_GetDouble(msg, &fval);
                     rbusValue_SetDouble(*value, (double)fval);
                     break;
-                case RBUS_DATETIME:
-                    rbusMessage_GetBytes(msg, &data, &length);
-                    rbusValue_SetTLV(*value, type, length, data);
-                    break;
                 default:
-                    rbusMessage_GetBytes(msg, &data, &length);
                     rbusValue_SetTLV(*value, type, length, data);
+                    if(rbusValue_GetType(*value) != (rbusValueType_t)type)
+                    {
+                        RBUSLOG_WARN("rbusValue_initFromMessage: invalid content for type %d", type);
+                        return RBUS_ERROR_BUS_ERROR;
+                    }
                     break;
             }
 
@@ -603,30 +626,34 @@ rbusError_t rbusValue_initFromMessage(rbusValue_t* value, rbusMessage msg)
 #endif
         }
     }
-    return RBUS_ERROR_SUCCESS;
+    return err;
 }
 
 rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg)
 {
-    char const* name;
+    char const* name = NULL;
     rbusValue_t value;
     rbusError_t err = RBUS_ERROR_SUCCESS;
 
-    rbusMessage_GetString(msg, (char const**) &name);
-#if DEBUG_SERIALIZER
-    RBUSLOG_INFO("> prop pop name=%s", name);
-#endif
-
     if (!property)
     {
         RBUSLOG_ERROR("rbusProperty_initFromMessage: property is NULL");
         return RBUS_ERROR_INVALID_INPUT;
     }
 
+    if(rbusMessage_GetString(msg, (char const**) &name) != RT_OK)
+        err = RBUS_ERROR_BUS_ERROR;
+#if DEBUG_SERIALIZER
+    RBUSLOG_INFO("> prop pop name=%s", name);
+#endif
+
     rbusProperty_Init(property, name, NULL);
-    err= rbusValue_initFromMessage(&value, msg);
-    rbusProperty_SetValue(*property, value);
-    rbusValue_Release(value);
+    if(err == RBUS_ERROR_SUCCESS)
+    {
+        err = rbusValue_initFromMessage(&value, msg);
+        rbusProperty_SetValue(*property, value);
+        rbusValue_Release(value);
+    }
     return err;
 }
 
@@ -651,18 +678,30 @@ void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg)
     }
 }
 
-void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
+rbusError_t rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
 {
     rbusProperty_t previous = NULL, first = NULL;
     int numProps = 0;
-    rbusMessage_GetInt32(msg, (int*) &numProps);
+    rbusError_t rc = RBUS_ERROR_SUCCESS;
+
+    *prop = NULL;
+    if(g_messageNesting >= RBUS_MESSAGE_MAX_NESTING)
+    {
+        RBUSLOG_WARN("rbusPropertyList_initFromMessage: nested too deep");
+        return RBUS_ERROR_BUS_ERROR;
+    }
+    if(rbusMessage_GetInt32(msg, (int*) &numProps) != RT_OK)
+        return RBUS_ERROR_BUS_ERROR;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> prop pop numProps=%d", numProps);
 #endif
-    while(--numProps >= 0)
+    g_messageNesting++;
+    while(rc != RBUS_ERROR_BUS_ERROR && --numProps >= 0)
     {
         rbusProperty_t prop;
-        rbusProperty_initFromMessage(&prop, msg);
+        rbusError_t err = rbusProperty_initFromMessage(&prop, msg);
+        if(err != RBUS_ERROR_SUCCESS)
+            rc = err;
         if(first == NULL)
             first = prop;
         if(previous != NULL)
@@ -672,8 +711,10 @@ void rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg)
         }
         previous = prop;
     }
+    g_messageNesting--;
     /*TODO we need to release the props we inited*/
     *prop = first;
+    return rc;
 }
 
 void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg)
@@ -711,31 +752,44 @@ void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg)
     }
 }
 
-void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
+rbusError_t rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
 {
     char const* name = NULL;
     int type = 0;
     int numChild = 0;
-    rbusProperty_t prop;
+    rbusProperty_t prop = NULL;
     rbusObject_t children=NULL, previous=NULL;
+    rbusError_t rc = RBUS_ERROR_SUCCESS;
 
-    rbusMessage_GetString(msg, &name);
-    rbusMessage_GetInt32(msg, &type);
+    if(g_messageNesting >= RBUS_MESSAGE_MAX_NESTING)
+    {
+        RBUSLOG_WARN("rbusObject_initFromMessage: nested too deep");
+        rc = RBUS_ERROR_BUS_ERROR;
+    }
+    else if(rbusMessage_GetString(msg, &name) != RT_OK || rbusMessage_GetInt32(msg, &type) != RT_OK)
+    {
+        rc = RBUS_ERROR_BUS_ERROR;
+    }
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> object pop name=%s type=%d", name, type);
 #endif
 
-    rbusPropertyList_initFromMessage(&prop, msg);
+    g_messageNesting++;
+    if(rc != RBUS_ERROR_BUS_ERROR)
+        rc = rbusPropertyList_initFromMessage(&prop, msg);
 
-    rbusMessage_GetInt32(msg, &numChild);
+    if(rc != RBUS_ERROR_BUS_ERROR && rbusMessage_GetInt32(msg, &numChild) != RT_OK)
+        rc = RBUS_ERROR_BUS_ERROR;
 #if DEBUG_SERIALIZER
     RBUSLOG_INFO("> object pop numChild=%d", numChild);
 #endif
 
-    while(--numChild >= 0)
+    while(rc != RBUS_ERROR_BUS_ERROR && --numChild >= 0)
     {
         rbusObject_t next;
-        rbusObject_initFromMessage(&next, msg);/*object child object*/
+        rbusError_t err = rbusObject_initFromMessage(&next, msg);/*object child object*/
+        if(err != RBUS_ERROR_SUCCESS)
+            rc = err;
         if(children == NULL)
             children = next;
         if(previous != NULL)
@@ -745,6 +799,7 @@ void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
         }
         previous = next;
     }
+    g_messageNesting--;
 
     if(type == RBUS_OBJECT_MULTI_INSTANCE)
         rbusObject_InitMultiInstance(obj, name);
@@ -755,6 +810,7 @@ void rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg)
     rbusProperty_Release(prop);
     rbusObject_SetChildren(*obj, children);
     rbusObject_Release(children);
+    return rc;
 }
 
 void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg)
@@ -856,30 +912,41 @@ void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg)
 
 void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
 {
-    int32_t type;
-    int32_t op;
+    int32_t type = 0;
+    int32_t op = 0;
 
-    rbusMessage_GetInt32(msg, &type);
+    *filter = NULL;
+
+    if(g_messageNesting >= RBUS_MESSAGE_MAX_NESTING)
+    {
+        RBUSLOG_WARN("rbusFilter_InitFromMessage: nested too deep");
+        return;
+    }
+    if(rbusMessage_GetInt32(msg, &type) != RT_OK || rbusMessage_GetInt32(msg, &op) != RT_OK)
+        return;
 
     if(type == RBUS_FILTER_EXPRESSION_RELATION)
     {
-        char const* name;
+        char const* name = NULL;
         rbusValue_t val;
-        rbusMessage_GetInt32(msg, &op);
-        rbusMessage_GetString(msg, &name);
-        rbusValue_initFromMessage(&val, msg);
-        rbusFilter_InitRelation(filter, op, val);
+        if(rbusMessage_GetString(msg, &name) != RT_OK)
+            return;
+        if(rbusValue_initFromMessage(&val, msg) == RBUS_ERROR_SUCCESS)
+            rbusFilter_InitRelation(filter, op, val);
         rbusValue_Release(val);
     }
     else if(type == RBUS_FILTER_EXPRESSION_LOGIC)
     {
         rbusFilter_t left = NULL, right = NULL;
-        rbusMessage_GetInt32(msg, &op);
+        g_messageNesting++;
         rbusFilter_InitFromMessage(&left, msg);
-        if(op != RBUS_FILTER_OPERATOR_NOT)
+        if(left && op != RBUS_FILTER_OPERATOR_NOT)
             rbusFilter_InitFromMessage(&right, msg);
-        rbusFilter_InitLogic(filter, op, left, right);
-        rbusFilter_Release(left);
+        g_messageNesting--;
+        if(left && (right || op == RBUS_FILTER_OPERATOR_NOT))
+            rbusFilter_InitLogic(filter, op, left, right);
+        if(left)
+            rbusFilter_Release(left);
         if(right)
             rbusFilter_Release(right);
     }
@@ -888,8 +955,8 @@ void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
 void rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter,
         uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg)
 {
-    char const* name;
-    int type;
+    char const* name = NULL;
+    int type = 0;
     rbusObject_t data = NULL;
     int hasFilter = false;
     int hasEventData =  false;
@@ -1500,6 +1567,7 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
     int sessionId = 0;
     int numVals = 0;
     int loopCnt = 0;
+    int numInited = 0;
     int rollBack = 0;
     char* pCompName = NULL;
     char* pIsCommit = NULL;
@@ -1529,13 +1597,19 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
         pProperties = (rbusProperty_t*)rt_try_malloc(numVals*sizeof(rbusProperty_t));
         if(pProperties)
         {
-            for (loopCnt = 0; loopCnt < numVals; loopCnt++)
+            for (loopCnt = 0; loopCnt < numVals && rc == RBUS_ERROR_SUCCESS; loopCnt++)
             {
                 rc = rbusProperty_initFromMessage(&pProperties[loopCnt], request);
+                numInited++;
             }
+            if(rc == RBUS_ERROR_SUCCESS && rbusMessage_GetString(request, (char const**) &pIsCommit) != RT_OK)
+                rc = RBUS_ERROR_INVALID_INPUT;
             if(rc != RBUS_ERROR_SUCCESS)
+            {
+                RBUSLOG_WARN("Set Failed: the request is malformed");
+                rc = RBUS_ERROR_INVALID_INPUT;
                 goto exit;
-            rbusMessage_GetString(request, (char const**) &pIsCommit);
+            }
 
             /* Since we set as string, this needs to compared with string..
             * Otherwise, just the #define in the top for TRUE/FALSE should be used.
@@ -1661,7 +1735,7 @@ exit:
 
     if(pProperties)
     {
-        for (loopCnt = 0; loopCnt < numVals; loopCnt++)
+        for (loopCnt = 0; loopCnt < numInited; loopCnt++)
         {
             rbusProperty_Release(pProperties[loopCnt]);
         }
@@ -1998,7 +2072,7 @@ static rbusError_t _get_single_dml_handler (rbusHandle_t handle, char const *par
 
 static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbusMessage *response)
 {
-    int paramSize = 1, i = 0;
+    int paramSize = 0, numInited = 0, i = 0;
     rbusError_t result = RBUS_ERROR_SUCCESS;
     char const *parameterName = NULL;
     char const *pCompName = NULL;
@@ -2019,19 +2093,20 @@ static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
         properties = rt_try_malloc(paramSize*sizeof(rbusProperty_t));
         if(properties)
         {
-            for(i = 0; i < paramSize; i++)
-            {
-                rbusProperty_Init(&properties[i], NULL, NULL);
-            }
-
             for(i = 0; i < paramSize; i++)
             {
                 parameterName = NULL;
-                rbusMessage_GetString(request, &parameterName);
+                if(rbusMessage_GetString(request, &parameterName) != RT_OK)
+                {
+                    RBUSLOG_WARN("Get Failed as %s did send %d names only", pCompName, i);
+                    result = RBUS_ERROR_INVALID_INPUT;
+                    break;
+                }
 
                 RBUSLOG_DEBUG("Param Name [%d]:[%s]", i, parameterName);
 
-                rbusProperty_SetName(properties[i], parameterName);
+                rbusProperty_Init(&properties[i], parameterName, NULL);
+                numInited++;
 
                 /* Check for wildcard query */
                 if (_is_wildcard_query(parameterName))
@@ -2062,7 +2137,7 @@ static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                     }
                     /* Release the memory */
                     rbusProperty_Release(xproperties);
-                    for (i = 0; i < paramSize; i++)
+                    for (i = 0; i < numInited; i++)
                     {
                         rbusProperty_Release(properties[i]);
                     }
@@ -2098,7 +2173,7 @@ static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
             }
         
             /* Free the memory, regardless of success or not.. */
-            for (i = 0; i < paramSize; i++)
+            for (i = 0; i < numInited; i++)
             {
                 rbusProperty_Release(properties[i]);
             }
@@ -2210,6 +2285,9 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
 
     rbusMessage_Init(response);
 
+    if(requestedDepth == INT32_MIN)/*has no absolute value*/
+        requestedDepth = INT32_MIN + 1;
+
     el = retrieveInstanceElementEx(handle, handleInfo->elementRoot, objName, true);
     if (!el)
     {
@@ -2337,8 +2415,8 @@ static void _table_add_row_callback_handler (rbusHandle_t handle, rbusMessage re
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
-    int sessionId;
-    char const* tableName;
+    int sessionId = 0;
+    char const* tableName = NULL;
     char const* aliasName = NULL;
     int err;
     uint32_t instNum = 0;
@@ -2395,8 +2473,8 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
-    int sessionId;
-    char const* rowName;
+    int sessionId = 0;
+    char const* rowName = NULL;
 
     rbusMessage_GetInt32(request, &sessionId);
     rbusMessage_GetString(request, &rowName);
@@ -2458,9 +2536,9 @@ static int _method_callback_handler(rbusHandle_t handle, rbusMessage request, rb
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusError_t result = RBUS_ERROR_BUS_ERROR;
-    int sessionId;
+    int sessionId = 0;
     int hasInParam = 0;
-    char const* methodName;
+    char const* methodName = NULL;
     rbusObject_t inParams, outParams;
     rbusValue_t value1, value2;
     rbusValue_t outParamsVal = NULL;
@@ -2576,6 +2654,7 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
     int32_t duration = 0;
     uint32_t subscriptionId = 0;
     rbusFilter_t filter = NULL;
+    bool badFilter = false;
     elementNode* el = NULL;
     rbusError_t ret = RBUS_ERROR_SUCCESS;
 
@@ -2605,6 +2684,8 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                 if(hasFilter)
                 {
                     rbusFilter_InitFromMessage(&filter, payload);
+                    if(!filter)
+                        badFilter = true;
                 }
             }
             else
@@ -2624,6 +2705,11 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                 RBUSLOG_ERROR("Invalid event_name: %s, Element Table Subscription should end with '.'", event_name);
                 ret = RBUS_ERROR_INVALID_EVENT;
             }
+            else if(badFilter)
+            {
+                RBUSLOG_ERROR("Malformed filter in subscription request. Sender: %s. Event: %s.", sender, event_name);
+                ret = RBUS_ERROR_INVALID_INPUT;
+            }
 
             int added = strncmp(method, METHOD_SUBSCRIBE, MAX_METHOD_NAME_LENGTH) == 0 ? 1 : 0;
                 
@@ -2759,7 +2845,12 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
 
     el = retrieveInstanceElementEx(handle, handleInfo->elementRoot, paramName, true);
 
-    if (el)
+    if (!consumerName || !consumerToBrokerConf)
+    {
+        ret = RBUSCORE_ERROR_INVALID_PARAM;
+        RBUSLOG_WARN("malformed direct connection request for parameter:%s", paramName);
+    }
+    else if (el)
     {
         if (0 == strncmp(consumerToBrokerConf, "unix", 4))
         {
@@ -2769,15 +2860,16 @@ static void _create_direct_connection_callback_handler (rbusHandle_t handle, rbu
         {
             char ip[128];
             // the length of 6 for "tcp://"
-            char const* p = strrchr(consumerToBrokerConf + 6, ':');
-            if (!p)
+            char const* p = strlen(consumerToBrokerConf) > 6 ? strrchr(consumerToBrokerConf + 6, ':') : NULL;
+            if (!p || (size_t)(p - consumerToBrokerConf) >= sizeof(ip))
             {
                 RBUSLOG_WARN("invalid address string:%s", consumerToBrokerConf);
                 ret = RBUSCORE_ERROR_INVALID_PARAM;
             }
             else
             {
-                strncpy(ip, consumerToBrokerConf, (p - consumerToBrokerConf));
+                memcpy(ip, consumerToBrokerConf, (p - consumerToBrokerConf));
+                ip[p - consumerToBrokerConf] = '\0';
                 RBUSLOG_DEBUG ("parsing ip address:%s", ip);
             
                 //FIXME :: The port must be within 65535 and unique to the consumer.
@@ -2831,7 +2923,7 @@ static void _close_direct_connection_callback_handler (rbusHandle_t handle, rbus
     rbusMessage_Init(response);
 
     el = retrieveInstanceElement(handleInfo->elementRoot, paramName);
-    if (el)
+    if (el && consumerName)
     {
         rbusMessage_SetInt32(*response, RBUSCORE_SUCCESS);
         rbuscore_updatePrivateListener(consumerName, paramName);
@@ -3513,7 +3605,7 @@ rbusError_t rbus_get(rbusHandle_t handle, char const* name, rbusValue_t* value)
     }
     else
     {
-        int valSize;
+        int valSize = 0;
         rbusLegacyReturn_t legacyRetCode = RBUS_LEGACY_ERR_FAILURE;
 
         RBUSLOG_DEBUG("Received response for remote method invocation!");
@@ -3537,7 +3629,13 @@ rbusError_t rbus_get(rbusHandle_t handle, char const* name, rbusValue_t* value)
                 rbusMessage_GetString(response, &buff);
                 if(buff && (strcmp(name, buff) == 0))
                 {
-                    rbusValue_initFromMessage(value, response);
+                    if(rbusValue_initFromMessage(value, response) == RBUS_ERROR_BUS_ERROR)
+                    {
+                        RBUSLOG_WARN("Invalid value for param: [%s]", name);
+                        rbusValue_Release(*value);
+                        *value = NULL;
+                        errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                    }
                 }
                 else
                 {
@@ -3580,29 +3678,39 @@ rbusError_t _getExt_response_parser(rbusMessage response, int *numValues, rbusPr
         errorcode = RBUS_ERROR_SUCCESS;
         RBUSLOG_DEBUG("Received valid response!");
         rbusMessage_GetInt32(response, &numOfVals);
-        *numValues = numOfVals;
         RBUSLOG_DEBUG("Number of return params = %d", numOfVals);
 
-        if(numOfVals)
+        rbusProperty_t last = NULL;
+        for(i = 0; i < numOfVals; i++)
         {
-            rbusProperty_t last;
-            for(i = 0; i < numOfVals; i++)
+            rbusProperty_t tmpProperties = NULL;
+            if(rbusProperty_initFromMessage(&tmpProperties, response) == RBUS_ERROR_BUS_ERROR)
             {
-                /* For the first instance, lets use the given pointer */
-                if (0 == i)
-                {
-                    rbusProperty_initFromMessage(retProperties, response);
-                    last = *retProperties;
-                }
-                else
-                {
-                    rbusProperty_t tmpProperties;
-                    rbusProperty_initFromMessage(&tmpProperties, response);
-                    rbusProperty_SetNext(last, tmpProperties);
-                    rbusProperty_Release(tmpProperties);
-                    last = tmpProperties;
-                }
+                RBUSLOG_WARN("Invalid response: %d of %d params", i, numOfVals);
+                errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                rbusProperty_Release(tmpProperties);
+                break;
+            }
+            /* For the first instance, lets use the given pointer */
+            if (0 == i)
+            {
+                *retProperties = tmpProperties;
+            }
+            else
+            {
+                rbusProperty_SetNext(last, tmpProperties);
+                rbusProperty_Release(tmpProperties);
             }
+            last = tmpProperties;
+        }
+        if(errorcode == RBUS_ERROR_SUCCESS)
+        {
+            *numValues = numOfVals;
+        }
+        else if(last)
+        {
+            rbusProperty_Release(*retProperties);
+            *retProperties = NULL;
         }
     }
     else
@@ -4705,7 +4813,7 @@ rbusError_t rbusTable_getRowNames(
 
         if((errorcode == RBUS_ERROR_SUCCESS) || (legacyRetCode == RBUS_LEGACY_ERR_SUCCESS))
         {
-            int count, i;
+            int count = 0, i;
             rbusRowName_t* tmpNames = NULL;
 
             errorcode = RBUS_ERROR_SUCCESS;
@@ -4727,12 +4835,26 @@ rbusError_t rbusTable_getRowNames(
 
             for(i = 0; i < count; ++i)
             {
-                int32_t instNum;
+                int32_t instNum = 0;
                 char const* alias = NULL;
                 char fullName[RBUS_MAX_NAME_LENGTH];
 
-                rbusMessage_GetInt32(response, &instNum);
-                rbusMessage_GetString(response, &alias);
+                if(rbusMessage_GetInt32(response, &instNum) != RT_OK || rbusMessage_GetString(response, &alias) != RT_OK)
+                {
+                    RBUSLOG_ERROR("getparamnames %s invalid response: %d of %d rows", tableName, i, count);
+                    if(i > 0)
+                    {
+                        tmpNames[i-1].next = NULL;
+                        rbusTable_freeRowNames(handle, tmpNames);
+                    }
+                    else
+                    {
+                        free(tmpNames);
+                    }
+                    tmpNames = NULL;
+                    errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                    break;
+                }
                 snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%d.", tableName, instNum);
                 tmpNames[i].name = strdup(fullName);
                 tmpNames[i].instNum = instNum;
@@ -4856,30 +4978,48 @@ rbusError_t rbusElementInfo_get(
                 RBUSLOG_DEBUG("invokeRemoteMethod %s %s success: count=%d", METHOD_GETPARAMETERNAMES, elemName, count);
                 if(count > 0)
                 {
-                    runningCount += count;
-                    if(*elemInfo == NULL)
-                        *elemInfo = rt_try_malloc(runningCount * sizeof(rbusElementInfo_t));
+                    rbusElementInfo_t* tmpInfo = rt_try_realloc(*elemInfo, ((size_t)runningCount + count) * sizeof(rbusElementInfo_t));
+                    if(!tmpInfo)
+                    {
+                        RBUSLOG_ERROR("failed to malloc %d element infos", count);
+                        errorcode = RBUS_ERROR_OUT_OF_RESOURCES;
+                        count = 0;
+                    }
                     else
-                        *elemInfo = rt_try_realloc(*elemInfo, runningCount * sizeof(rbusElementInfo_t));
-                    if(!*elemInfo)
                     {
-                        RBUSLOG_ERROR("failed to malloc %d element infos", runningCount);
-                        return RBUS_ERROR_OUT_OF_RESOURCES;
+                        *elemInfo = tmpInfo;
                     }
-                    for(i = 0; i < runningCount-1; ++i)
-                       (*elemInfo)[i].next = &(*elemInfo)[i+1];
-                    (*elemInfo)[runningCount-1].next = NULL;
                 }
 
-                for(i = startIndex; i < runningCount; ++i)
+                for(i = startIndex; i < startIndex + count; ++i)
                 {
-                    rbusMessage_GetString(response, (char const**)&(*elemInfo)[i].name);
-                    rbusMessage_GetInt32(response, (int32_t*)&(*elemInfo)[i].type);
-                    rbusMessage_GetInt32(response, (int32_t*)&(*elemInfo)[i].access);
-                    (*elemInfo)[i].name = strdup((*elemInfo)[i].name);
+                    char const* name = NULL;
+                    int32_t type = 0;
+                    int32_t access = 0;
+
+                    if(rbusMessage_GetString(response, &name) != RT_OK ||
+                       rbusMessage_GetInt32(response, &type) != RT_OK ||
+                       rbusMessage_GetInt32(response, &access) != RT_OK)
+                    {
+                        RBUSLOG_ERROR("%s got invalid response from %s", elemName, destinations[d]);
+                        errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
+                        break;
+                    }
+                    (*elemInfo)[i].name = strdup(name);
+                    (*elemInfo)[i].type = type;
+                    (*elemInfo)[i].access = access;
                     (*elemInfo)[i].component = strdup(destinations[d]);
+                    runningCount++;
                     RBUSLOG_DEBUG("adding name %s", (*elemInfo)[i].name);
                 }
+
+                for(i = 0; i < runningCount; ++i)
+                    (*elemInfo)[i].next = i < runningCount-1 ? &(*elemInfo)[i+1] : NULL;
+                if(runningCount == 0 && *elemInfo)
+                {
+                    free(*elemInfo);
+                    *elemInfo = NULL;
+                }
             }
             else
             {
diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 60cb5f1..4419739 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -394,7 +394,7 @@ elementNode* retrieveElement(elementNode* root, const char* elmentName)
     elementNode* nextNode = NULL;
     int tokenFound = 0;  
     RBUSLOG_DEBUG("Request to retrieve element [%s]", elmentName);
-    if(currentNode == NULL)
+    if(currentNode == NULL || elmentName == NULL)
     {
         return NULL;
     }
@@ -494,7 +494,7 @@ elementNode* retrieveInstanceElementEx(rbusHandle_t handle, elementNode* root, c
 
     RBUSLOG_DEBUG("Request to retrieve element [%s]", elmentName);
    
-    if(currentNode == NULL)
+    if(currentNode == NULL || elmentName == NULL)
     {
         return NULL;
     }
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 545f50a..0573a0b 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -669,22 +669,33 @@ void rbusValue_SetTLV(rbusValue_t v, rbusValueType_t type, uint32_t length, void
     VERIFY_NULL(v);
     VERIFY_NULL(value);
 
+    /*the content may come from another process: what is no valid content of the type leaves the value empty*/
+    rbusValue_FreeInternal(v);
+    v->type = RBUS_NONE;
     switch(type)
     {
     /*Calling rbusValue_SetString/rbusValue_SetBuffer so the value's internal buffer is created.*/
     case RBUS_STRING:
-        rbusValue_SetString(v, length ? (char const*)value : NULL);
+        if(length == 0)
+            rbusValue_SetString(v, NULL);
+        else if(memchr(value, 0, length) == (char const*)value + length - 1)
+            rbusValue_SetString(v, (char const*)value);
         break;
     case RBUS_BYTES:
         rbusValue_SetBytes(v, value, length);
         break;
+    case RBUS_BOOLEAN:
+        if(length == sizeof(bool))
+            rbusValue_SetBoolean(v, *(uint8_t const*)value != 0);
+        break;
     default:
-        rbusValue_FreeInternal(v);
         v->type = type;
-        memcpy(&v->d.b, value, length);
+        if(length > 0 && length == rbusValue_GetL(v))
+            memcpy(&v->d.b, value, length);
+        else
+            v->type = RBUS_NONE;
         break;
     }
-    assert(rbusValue_GetL(v) == length);
 }
 
 int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
-- 
2.43.0


From 60cac0a2a1efd4e64eadb9956189d00957022394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 16/65] fix: only the holder of the last reference destroys a
 shared item

---
 src/rtmessage/rtAtomic.h     | 27 +++++++++++++++++++--------
 src/rtmessage/rtMessage.c    |  4 +---
 src/rtmessage/rtRetainable.c |  5 ++---
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/rtmessage/rtAtomic.h b/src/rtmessage/rtAtomic.h
index 2f6210f..85d4dc1 100644
--- a/src/rtmessage/rtAtomic.h
+++ b/src/rtmessage/rtAtomic.h
@@ -41,31 +41,42 @@
 extern "C" {
 #endif
 
-static inline void rt_atomic_fetch_add(atomic_int* var, int value)
+/*both return the value from before*/
+static inline int rt_atomic_fetch_add(atomic_int* var, int value)
 {
 #if defined(RT_ATOMIC_HAS_ATOMIC_FETCH)
-    __atomic_fetch_add(var, value, __ATOMIC_SEQ_CST);
+    return __atomic_fetch_add(var, value, __ATOMIC_SEQ_CST);
 #elif defined(RT_ATOMIC_HAS_SYNC_FETCH)
-    __sync_fetch_and_add(var, value);
+    return __sync_fetch_and_add(var, value);
 #else
+    int previous = 0;
     pthread_mutex_lock(&g_atomic_mutex);
     if(NULL != var)
-        *(var) = *(var) + value;
+    {
+        previous = *(var);
+        *(var) = previous + value;
+    }
     pthread_mutex_unlock(&g_atomic_mutex);
+    return previous;
 #endif
 }
 
-static inline void rt_atomic_fetch_sub(atomic_int* var, int value)
+static inline int rt_atomic_fetch_sub(atomic_int* var, int value)
 {
 #if defined(RT_ATOMIC_HAS_ATOMIC_FETCH)
-    __atomic_fetch_sub(var, value, __ATOMIC_SEQ_CST);
+    return __atomic_fetch_sub(var, value, __ATOMIC_SEQ_CST);
 #elif defined(RT_ATOMIC_HAS_SYNC_FETCH)
-    __sync_fetch_and_sub(var, value);
+    return __sync_fetch_and_sub(var, value);
 #else
+    int previous = 0;
     pthread_mutex_lock(&g_atomic_mutex);
     if(NULL != var)
-        *(var) = *(var) - value;
+    {
+        previous = *(var);
+        *(var) = previous - value;
+    }
     pthread_mutex_unlock(&g_atomic_mutex);
+    return previous;
 #endif
 }
 
diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index 99d9947..e7f26b0 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -617,9 +617,7 @@ rtMessage_Retain(rtMessage m)
 rtError
 rtMessage_Release(rtMessage m)
 {
-  if (m->count != 0)
-    rt_atomic_fetch_sub(&m->count, 1);
-  if (m->count == 0)
+  if (m->count == 0 || rt_atomic_fetch_sub(&m->count, 1) == 1)
     rtMessage_Destroy(m);
   return RT_OK;
 }
diff --git a/src/rtmessage/rtRetainable.c b/src/rtmessage/rtRetainable.c
index c7d82e2..50bbf3c 100644
--- a/src/rtmessage/rtRetainable.c
+++ b/src/rtmessage/rtRetainable.c
@@ -27,9 +27,8 @@ void rtRetainable_retainInternal(rtRetainable* r)
 
 void rtRetainable_releaseInternal(rtRetainable* r, void (*destructor)(rtRetainable*))
 {
-    rt_atomic_fetch_sub(&r->refCount, 1);
-
-    if(r->refCount == 0)
+    /*only the caller who took the last reference may destroy; another may have destroyed it already if the count was read again*/
+    if(rt_atomic_fetch_sub(&r->refCount, 1) == 1)
     {
         destructor(r);
     }
-- 
2.43.0


From 32424180cfed4ebf31b1b71f55fac01b9129d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 17/65] fix: release long property and object lists without
 recursion

---
 src/rbus/rbus_object.c   | 15 ++++++++++++++-
 src/rbus/rbus_property.c | 15 ++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index f43c809..d2db725 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -78,7 +78,20 @@ void rbusObject_Destroy(rtRetainable* r)
     }
 
     rbusObject_SetChildren(object, NULL);
-    rbusObject_SetNext(object, NULL);
+    /*the list may be long: take what nobody else holds out of it one by one instead of recursively*/
+    rbusObject_t next = object->next;
+    object->next = NULL;
+    while(next)
+    {
+        rbusObject_t after = NULL;
+        if(next->retainable.refCount == 1)
+        {
+            after = next->next;
+            next->next = NULL;
+        }
+        rbusObject_Release(next);
+        next = after;
+    }
     rbusObject_SetParent(object, NULL);
 
     free(object);
diff --git a/src/rbus/rbus_property.c b/src/rbus/rbus_property.c
index eb97e44..c8e5a2d 100644
--- a/src/rbus/rbus_property.c
+++ b/src/rbus/rbus_property.c
@@ -59,10 +59,19 @@ void rbusProperty_Destroy(rtRetainable* r)
     }
 
     rbusValue_Release(property->value);
-    if(property->next)
+    /*the list may be long: take what nobody else holds out of it one by one instead of recursively*/
+    rbusProperty_t next = property->next;
+    property->next = NULL;
+    while(next)
     {
-        rbusProperty_Release(property->next);
-        property->next = NULL;
+        rbusProperty_t after = NULL;
+        if(next->retainable.refCount == 1)
+        {
+            after = next->next;
+            next->next = NULL;
+        }
+        rbusProperty_Release(next);
+        next = after;
     }
 
     free(property);
-- 
2.43.0


From 54b103a922d25665882c3ce88f33bc5bef3323c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 18/65] fix: mark the missing right side of an encoded NOT
 filter

---
 src/rbus/rbus_filter.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 16d319e..dc492d2 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -230,12 +230,18 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
         rbusFilter_Encode(filter->e.logic.left, buff);
-        if(filter->e.logic.op != RBUS_FILTER_OPERATOR_NOT)/*NOT only has a left side*/
+        if(filter->e.logic.right)
+        {
             rbusFilter_Encode(filter->e.logic.right, buff);
+        }
+        else/*NOT only needs a left side*/
+        {
+            rbusBuffer_WriteTypeLengthValue(buff, RBUS_NONE, 0, "");
+        }
     }
 }
 
-int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
+static int filterDecode(rbusFilter_t* filterOut, rbusBuffer_t const buff, bool optional)
 {
     uint16_t    type;
     uint16_t    length;
@@ -250,6 +256,11 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
         return -1;
     if(rbusBuffer_ReadUInt16(buff, &length) < 0)
         return -1;
+    if(optional && type == RBUS_NONE && length == 0)
+    {
+        *filterOut = NULL;
+        return 0;
+    }
     if(!(type == RBUS_UINT32 && length == 4))
     {
         RBUSLOG_WARN("rbusFilter_Decode failed");
@@ -290,9 +301,9 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
         }
         if(rbusBuffer_ReadUInt32(buff, &logOp) < 0)
             return -1;
-        if(rbusFilter_Decode(&left, buff) < 0)
+        if(filterDecode(&left, buff, false) < 0)
             return -1;
-        if(logOp != RBUS_FILTER_OPERATOR_NOT && rbusFilter_Decode(&right, buff) < 0)
+        if(filterDecode(&right, buff, logOp == RBUS_FILTER_OPERATOR_NOT) < 0)
         {
             rbusFilter_Release(left);
             return -1;
@@ -312,6 +323,11 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
     return 0;
 }
 
+int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
+{
+    return filterDecode(filterOut, buff, false);
+}
+
 int rbusFilter_Compare(rbusFilter_t filter1, rbusFilter_t filter2)
 {
     if(filter1 && filter2)
-- 
2.43.0


From 04e71368989a5d5571b1dbe26499365e893a7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 19/65] fix: keep the broker's topic table exact when topics
 are refused or removed

---
 src/rtmessage/rtRoutingTree.c | 238 +++++++++++++++++++---------------
 src/rtmessage/rtRoutingTree.h |   4 +-
 src/rtmessage/rtrouted.c      |   9 +-
 3 files changed, 145 insertions(+), 106 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 84230ab..10e32e4 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -113,41 +113,32 @@ static void freeTreeRoute(void* p)
 
 static int validateExpression(const char* expr)
 {
-    int token_count = 0;
-    int token_length = 0;
-    int result = 0;
-
     while(*expr)
     {
-        if(*expr == '.')
-	{
-	    if(*(expr + 1) == '.')
-	    {
-	       result = -1;
-	       break;
-	    }
-	    token_count++;
-	}
-        token_length++;
-        expr++;	
+        if(*expr == '.' && *(expr + 1) == '.')
+            return -1;
+        expr++;
     }
-
-    if((token_length > MAX_TOKEN_BUFFER_SIZE) || (token_count > MAX_TOKENS))
-    {
-        result = -1;
-    }
-
-    return result;
+    return 0;
 }
 
-static void tokenizeExpression(const char* expression)
+/*Splits the expression into workTokens. Returns -1 and leaves no tokens if it does not fit.*/
+static int tokenizeExpression(const char* expression)
 {
     int i = 0;
     const char* from = expression;
     char* to = workBuffer;
     workTokenCount = 0;
+
+    /*each token's terminator takes the place of the '.' after it*/
+    if(strlen(expression) >= MAX_TOKEN_BUFFER_SIZE)
+        return -1;
+
     while(*from)
     {
+        if(i == MAX_TOKENS)
+            return -1;
+
         workTokens[i].name = to;
         
         while(*from && *from != '.')
@@ -159,44 +150,39 @@ static void tokenizeExpression(const char* expression)
         i++;
     }
     workTokenCount = i;
+    return 0;
 }
 
-static void removeTopicFromRoutes(rtRoutingTree rt, rtTreeTopic* topic)
+static int listHasPointer(rtList list, const void* ptr)
 {
-    rtListItem childItem;
-    rtTreeTopic* childTopic;
-    rtListItem routeItem;
-    rtTreeRoute* route;
-    size_t size;
-    rtList_GetFront(topic->routeList, &routeItem);
-    while(routeItem)
+    rtListItem item;
+    rtList_GetFront(list, &item);
+    while(item)
     {
-        rtListItem_GetData(routeItem, (void**)&route);
-
-        rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
-        /*if the route's topicList has become empty, then remove the whole route*/
-        rtList_GetSize(route->topicList, &size);
-        if(size == 0)
-            rtList_RemoveItemByCompare(rt->routeList, route, rtList_ComparePointer, freeTreeRoute);
-
-        rtListItem_GetNext(routeItem, &routeItem);
+        void* data = NULL;
+        rtListItem_GetData(item, &data);
+        if(data == ptr)
+            return 1;
+        rtListItem_GetNext(item, &item);
     }
+    return 0;
+}
 
-    rtList_GetFront(topic->childList, &childItem);
-    while(childItem)
-    {
-        rtListItem_GetData(childItem, (void**)&childTopic);
-        removeTopicFromRoutes(rt, childTopic);
-        rtListItem_GetNext(childItem, &childItem);
-    }
+static int listIsEmpty(rtList list)
+{
+    size_t size = 0;
+    rtList_GetSize(list, &size);
+    return size == 0;
 }
 
-static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const char* name, int create, int* created, int *error, int remove)
+/* Finds the child a name refers to, or NULL.
+   conflict is set if the name can't be added as a child next to the existing children. */
+static rtTreeTopic* findChild(rtTreeTopic* parent, const char* name, int* conflict)
 {
     rtListItem item;
 
-    if(created)
-        *created = 0;
+    if(conflict)
+        *conflict = 0;
     rtList_GetFront(parent->childList, &item);
 
     while(item)
@@ -205,13 +191,8 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         rtListItem_GetData(item, (void**)&treeTopic);
         if(strcmp(treeTopic->name, name) == 0)
         {
-            /* we can remove if its an exact match*/
-            if(remove)
-            {
-              removeTopicFromRoutes(rt, treeTopic);
-              rtList_RemoveItem(parent->childList, item, freeTreeTopic);
-              return NULL;
-            }
+            if(conflict)
+                *conflict = 0;
             return treeTopic;
         }
         /* if a query contains a row instance id, a square bracket alias, or wildcard * 
@@ -226,31 +207,21 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
            If a user ever tries to use { or [ or * as anything other then table register, alias, wildcard, then
            the following line will have to be modified.
         */
-        else if(treeTopic->name[0] == '{' && (isdigit(name[0]) || name[0] == '[' || name[0] == '*'))
+        else if(treeTopic->name[0] == '{' && (isdigit((unsigned char)name[0]) || name[0] == '[' || name[0] == '*'))
         {
-            /* note that we don't handle the remove flag here because you should never create or remove instance ids themselves in the tree
-               however, as a safeguard we only do remove in the above branch when name is an exact match*/
+            if(conflict)
+                *conflict = 0;
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
         else if (treeTopic->name[0] == '{' || name[0] == '{')
         {
-            if (error)
-            {
-                *error = 1;
-            }
-            return treeTopic;
+            if (conflict)
+                *conflict = 1;
         }
         rtListItem_GetNext(item, &item);
     }
-    if(create)
-    {
-        if(created)
-            *created = 1;
-        return createTreeTopic(name, parent);
-    }
-    else
-        return NULL;
+    return NULL;
 }
 
 static rtTreeRoute* getTreeRoute(rtRoutingTree rt, const void* route, rtListItem* routeItem)
@@ -303,6 +274,53 @@ static void optimizeTopicsBackpropagate(rtTreeTopic* topic, rtTreeRoute* route)
         optimizeTopicsBackpropagate(topic->parent, route);
 }
 
+static void removeChildTopic(rtTreeTopic* parent, rtTreeTopic* child)
+{
+    if(child->name[0] == '{')
+        parent->isTable = 0;
+    rtList_RemoveItemByCompare(parent->childList, child, rtList_ComparePointer, freeTreeTopic);
+}
+
+/*Removes the route from the topic, and what exists only because of it.*/
+static void removeRouteFromTopic(rtRoutingTree rt, rtTreeTopic* topic, rtTreeRoute* route)
+{
+    rtTreeTopic* ancestor;
+
+    rtList_RemoveItemByCompare(topic->routeList, route, rtList_ComparePointer, NULL);
+    rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
+
+    /*the ancestors list the route only as long as some topic below them still has it*/
+    for(ancestor = topic->parent; ancestor && ancestor->parent; ancestor = ancestor->parent)
+    {
+        rtListItem item;
+        int found = 0;
+        rtList_GetFront(ancestor->childList, &item);
+        while(item && !found)
+        {
+            rtTreeTopic* child;
+            rtListItem_GetData(item, (void**)&child);
+            found = listHasPointer(child->routeList, route) || listHasPointer(child->routeList2, route);
+            rtListItem_GetNext(item, &item);
+        }
+        if(found)
+            break;
+        if(ancestor->routeList2)
+            rtList_RemoveItemByCompare(ancestor->routeList2, route, rtList_ComparePointer, NULL);
+    }
+
+    /*drop the topics which have become empty*/
+    while(topic->parent && listIsEmpty(topic->childList) && listIsEmpty(topic->routeList))
+    {
+        rtTreeTopic* parent = topic->parent;
+        removeChildTopic(parent, topic);
+        topic = parent;
+    }
+
+    /*if the route's topicList has become empty, then remove the whole route*/
+    if(listIsEmpty(route->topicList))
+        rtList_RemoveItemByCompare(rt->routeList, route, rtList_ComparePointer, freeTreeRoute);
+}
+
 /* 
     This does a depth first search for treeTopics having the route.
     If a treeTopic has the route, the route is removed from the treeTopic.
@@ -345,7 +363,7 @@ static void removeRouteFromTopicTree(rtRoutingTree rt, rtTreeTopic* treeTopic, r
         rtListItem_GetNext(childItem, &next);
         if(numChildren == 0 && numRoutes == 0)
         {
-            rtList_RemoveItem(treeTopic->childList, childItem, freeTreeTopic);
+            removeChildTopic(treeTopic, child);
         }/*
         else if(numRoutes == 0 && numRoutes2 > 0)
         {
@@ -478,54 +496,59 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
 {
     rtError rc = RT_OK;
     int i;
+    int conflict = 0;
     rtTreeTopic* topic = rt->topicRoot;
+    rtTreeTopic* child = NULL;
     rtTreeRoute* route;
 
     rtLog_Debug("%s: %s", __FUNCTION__, topicPath);
     
-    if(validateExpression(topicPath) < 0)
+    if(validateExpression(topicPath) < 0 || tokenizeExpression(topicPath) < 0)
     {
         rtLog_Debug("Rejecting data registraion due to invalid expression");
         return RT_ERROR_INVALID_EXPRESSION;
     }
 
-    tokenizeExpression(topicPath);
-
     if(workTokenCount == 0)
         return rc;
 
-    route = getTreeRoute(rt, routeData, NULL);
-    if(!route)
-    {
-        route = rt_malloc(sizeof(rtTreeRoute));
-        route->route = (void*)routeData;
-        rtList_Create(&route->topicList);
-        rtList_PushBack(rt->routeList, route, NULL);
-    }
-
-    int isCreated = 0;
-    int error = 0;
+    /*walk down the existing topics first, so that a rejected registration leaves nothing behind*/
     for(i = 0; i < workTokenCount; ++i)
     {
-        topic = getChildByName(rt, topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error, 0);
-        if (error)
+        child = findChild(topic, workTokens[i].name, &conflict);
+        if (conflict)
         {
             rtLog_Debug("Rejecting data registraion as per standard");
             return RT_ERROR_PROTOCOL_ERROR;
         }
+        if(!child)
+            break;
+        topic = child;
     }
 
-    if (err_on_dup && (0 == isCreated) && (topic->routeList) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
+    if (err_on_dup && (i == workTokenCount) && !listIsEmpty(topic->routeList) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
     {
         /* Controlled Error log will be printed in rtrouted */
         rtLog_Debug("Rejecting a duplicate registraion");
         return RT_ERROR_DUPLICATE_ENTRY;
     }
 
+    for(; i < workTokenCount; ++i)
+        topic = createTreeTopic(workTokens[i].name, topic);
+
+    route = getTreeRoute(rt, routeData, NULL);
+    if(!route)
+    {
+        route = rt_malloc(sizeof(rtTreeRoute));
+        route->route = (void*)routeData;
+        rtList_Create(&route->topicList);
+        rtList_PushBack(rt->routeList, route, NULL);
+    }
+
     if(!topic->routeList)
         rtList_Create(&topic->routeList);
 
-    rtList_PushBack(topic->routeList, route, NULL);
+    addPointerToListOnce(topic->routeList, route);
 
     addPointerToListOnce(route->topicList, topic);
 
@@ -548,7 +571,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = findChild(treeTopic, workTokens[i].name, NULL);
 
         if(!treeTopic)
             return;
@@ -604,7 +627,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
         *routes = treeTopic->routeList2;
     }
     else
-    if(treeTopic->isTable)
+    if(treeTopic->isTable && listIsEmpty(treeTopic->routeList))
     {
         /* If we ended on a table, then we need an additional check.
           We allow querying a table without adding the ".{i}" suffix.
@@ -612,7 +635,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
           However, "Foo" doesn't have the route.  "Foo.{i}" has the route we want.
           So we need to search for the "{i}" child here and use its route.
         */
-        rtTreeTopic* curlyChild = getChildByName(rt, treeTopic, "{i}", 0, NULL, NULL, 0);
+        rtTreeTopic* curlyChild = findChild(treeTopic, "{i}", NULL);
         if(curlyChild)
         {
           *routes = curlyChild->routeList;
@@ -656,12 +679,13 @@ void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route)
     rtList_RemoveItem(rt->routeList, routeItem, freeTreeRoute);
 }
 
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
+void rtRoutingTree_RemoveTopicRoute(rtRoutingTree rt, const char* topic, const void* route)
 {
     int i;
     rtTreeTopic* treeTopic = rt->topicRoot;
+    rtTreeRoute* treeRoute;
 
-    rtLog_Debug("%s topic=%s", __FUNCTION__, topic);
+    rtLog_Debug("%s topic=%s route=%p", __FUNCTION__, topic, route);
 
     tokenizeExpression(topic);
     if(workTokenCount == 0)
@@ -669,11 +693,19 @@ void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, i == workTokenCount-1);
+        treeTopic = findChild(treeTopic, workTokens[i].name, NULL);
 
         if(!treeTopic)
             return;
     }
+
+    /* instance ids are never created or removed themselves, so only remove if its an exact match*/
+    if(strcmp(treeTopic->name, workTokens[workTokenCount-1].name) != 0)
+        return;
+
+    treeRoute = getTreeRoute(rt, route, NULL);
+    if(treeRoute && listHasPointer(treeTopic->routeList, treeRoute))
+        removeRouteFromTopic(rt, treeTopic, treeRoute);
 }
 
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics)
@@ -687,7 +719,7 @@ void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath,
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = findChild(treeTopic, workTokens[i].name, NULL);
         
         if(!treeTopic)
             return;
@@ -708,9 +740,11 @@ void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath,
             if (route->topicList)
             {
                 rtList_GetFront(route->topicList, &topicItem);
-                rtListItem_GetData(topicItem, (void**)&topic);
-            
-                rtList_PushBack(topics, topic->fullName, NULL);
+                if (topicItem)
+                {
+                    rtListItem_GetData(topicItem, (void**)&topic);
+                    rtList_PushBack(topics, topic->fullName, NULL);
+                }
             }
         }
     }
diff --git a/src/rtmessage/rtRoutingTree.h b/src/rtmessage/rtRoutingTree.h
index 1ba21a1..b7379c2 100644
--- a/src/rtmessage/rtRoutingTree.h
+++ b/src/rtmessage/rtRoutingTree.h
@@ -39,7 +39,7 @@ rtRoutingTree:
             rtRoutingTree_GetTopicRoutes        <= rtree_lookup_value
             rtRoutingTree_ResolvePartialPath    <= rtree_get_uniquely_resolvable_endpoints_for_expression
             rtRoutingTree_RemoveRoute           <= rtree_remove_nodes_matching_value
-            rtRoutingTree_RemoveTopic           <= rtree_remove_value
+            rtRoutingTree_RemoveTopicRoute      <= rtree_remove_value
             rtRoutingTree_LogStats              <= rtree_get_stats
             rtRoutingTree_LogTopicTree          <= rtree_traverse_and_log
         API new functions:
@@ -157,7 +157,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topic, const v
 void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* routes);
 void rtRoutingTree_GetRouteTopics(rtRoutingTree rt, const void* route, rtList* topics);
 void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route);
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic);
+void rtRoutingTree_RemoveTopicRoute(rtRoutingTree rt, const char* topic, const void* route);
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics);
 void rtRoutingTree_LogStats(rtRoutingTree rt);
 void rtRoutingTree_LogTopicTree(rtRoutingTree rt);
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 6c3b96b..c5aed89 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -803,9 +803,14 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         }
         if(0 == route_removed)
         {
-          //Not a route. Is it an alias?
+          //Not a route. Is it an alias of one of the sender's routes?
           rtLog_Debug("Removing alias %s", expression);
-          rtRoutingTree_RemoveTopic(gRoutingTree, expression);
+          for (i = 0; i < rtVector_Size(gRoutes); i++)
+          {
+            rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
+            if(route->subscription && (route->subscription->client == sender))
+              rtRoutingTree_RemoveTopicRoute(gRoutingTree, expression, (void *)route);
+          }
         }
       }
     }
-- 
2.43.0


From 7d12682812451314e182a35df071c354fa949ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 20/65] fix: bound and pad-check base64 decoding

---
 src/rtmessage/rtBase64.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/rtmessage/rtBase64.c b/src/rtmessage/rtBase64.c
index fb876dd..6a766b5 100644
--- a/src/rtmessage/rtBase64.c
+++ b/src/rtmessage/rtBase64.c
@@ -145,19 +145,14 @@ rtError rtBase64_decode(const unsigned char * in, const unsigned int in_size,  v
 
     /*Allocate memory for the output*/
     *out_size = in_size * 3 / 4;
-    if('=' == in[in_size -2])
+    if((0 < in_size) && ('=' == in[in_size -1]))
     {
-        /*Two character padding.*/
-        num_padding_bytes = 2;
-    }
-    else if('=' == in[in_size -1])
-    {
-        /*One character padding.*/
-        num_padding_bytes = 1;
+        /*One or two character padding.*/
+        num_padding_bytes = ('=' == in[in_size -2]) ? 2 : 1;
     }
     *out_size -= num_padding_bytes;
 
-    unsigned char *write_buff = (unsigned char *) rt_try_malloc(*out_size);
+    unsigned char *write_buff = (unsigned char *) rt_try_malloc(*out_size ? *out_size : 1);
     if(NULL == write_buff)
     {
         rtLog_Fatal("Couldn't allocate memory for output.");
@@ -193,7 +188,7 @@ rtError rtBase64_decode(const unsigned char * in, const unsigned int in_size,  v
         rtLog_Error("Decode error.");
         free(write_buff);
         *out = NULL;
-        out_size = 0;
+        *out_size = 0;
         return RT_ERROR;
     }
     *out = write_buff;
-- 
2.43.0


From 58ee0866bb9f3433cadfa8b22f65f3822d6461f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 21/65] fix: reject JSON fields of the wrong type and honour
 the length in rtMessage

---
 src/rtmessage/rtMessage.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index e7f26b0..2544972 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -102,8 +102,6 @@ rtMessage_Clone(rtMessage const message, rtMessage* copy)
 rtError
 rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
 {
-  (void) n;
-
   #if 0
   printf("------------------------------------------\n")
   for (i = 0; i < 256; ++i)
@@ -120,7 +118,7 @@ rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
   *message = (rtMessage) rt_try_malloc(sizeof(struct _rtMessage));
   if(!*message)
     return rtErrorFromErrno(ENOMEM);
-  (*message)->json = cJSON_Parse((char *) bytes);
+  (*message)->json = (bytes && n > 0) ? cJSON_ParseWithLength((char const*) bytes, (size_t) n) : NULL;
   if (!(*message)->json)
   {
     free(*message);
@@ -299,7 +297,7 @@ rtError
 rtMessage_GetString(rtMessage const  message, const char* name, char const** value)
 {
   cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  if (cJSON_IsString(p))
   {
     *value = p->valuestring;
     return RT_OK;
@@ -319,7 +317,7 @@ rtError
 rtMessage_GetBinaryData(rtMessage message, char const* name, void ** ptr, uint32_t *size)
 {
   cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  if (cJSON_IsString(p))
   {
     const unsigned char * value;
     value = (unsigned char *)p->valuestring;
@@ -344,11 +342,11 @@ rtError
 rtMessage_GetStringValue(rtMessage const message, char const* name, char* fieldvalue, int n)
 {
   cJSON* p = cJSON_GetObjectItem(message->json, name);
-  if (p)
+  if (cJSON_IsString(p))
   {
     char *value = p->valuestring;
     int const len = (int) strlen(value);
-    if (len <= n)
+    if (len < n)
     {
       snprintf(fieldvalue, n, "%s", value);
       return RT_OK;
@@ -429,7 +427,7 @@ rtMessage_GetSendTopic(rtMessage const m, char* topic)
 {
   rtError err = RT_OK;
   cJSON* obj = cJSON_GetObjectItem(m->json, "_topic");
-  if (obj)
+  if (cJSON_IsString(obj))
     strcpy(topic, obj->valuestring);
   else
     err = RT_FAIL;
@@ -446,12 +444,10 @@ rtError
 rtMessage_SetSendTopic(rtMessage const m, char const* topic)
 {
   cJSON* obj = cJSON_GetObjectItem(m->json, "_topic");
-  if (obj)
+  if (obj)/*the replaced item is deleted by cJSON*/
     cJSON_ReplaceItemInObject(m->json, "_topic", cJSON_CreateString(topic));
   else
     cJSON_AddItemToObject(m->json, "_topic", cJSON_CreateString(topic));
-  if (obj)
-    cJSON_Delete(obj);
   return RT_OK;
 }
 
@@ -560,11 +556,11 @@ rtMessage_GetStringItem(rtMessage const m, char const* name, int32_t idx, char c
   cJSON* obj = cJSON_GetObjectItem(m->json, name);
   if (!obj)
     return RT_PROPERTY_NOT_FOUND;
-  if (idx >= cJSON_GetArraySize(obj))
+  if (idx < 0 || idx >= cJSON_GetArraySize(obj))
     return RT_FAIL;
 
   cJSON* item = cJSON_GetArrayItem(obj, idx);
-  if (item)
+  if (cJSON_IsString(item))
   {
     *value = item->valuestring;
     return RT_OK;
@@ -586,7 +582,7 @@ rtMessage_GetMessageItem(rtMessage const m, char const* name, int32_t idx, rtMes
   cJSON* obj = cJSON_GetObjectItem(m->json, name);
   if (!obj)
     return RT_PROPERTY_NOT_FOUND;
-  if (idx >= cJSON_GetArraySize(obj))
+  if (idx < 0 || idx >= cJSON_GetArraySize(obj))
     return RT_FAIL;
   *msg = (rtMessage) rt_try_malloc(sizeof(struct _rtMessage));
   if(!*msg)
@@ -617,6 +613,8 @@ rtMessage_Retain(rtMessage m)
 rtError
 rtMessage_Release(rtMessage m)
 {
+  if (!m)
+    return RT_ERROR_INVALID_ARG;
   if (m->count == 0 || rt_atomic_fetch_sub(&m->count, 1) == 1)
     rtMessage_Destroy(m);
   return RT_OK;
-- 
2.43.0


From aff963def2a4651295d61f2e81600e9df59fd530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 22/65] fix: keep decoded header strings inside the header

---
 src/rtmessage/rtMessageHeader.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/rtmessage/rtMessageHeader.c b/src/rtmessage/rtMessageHeader.c
index 09d8551..c6fa054 100644
--- a/src/rtmessage/rtMessageHeader.c
+++ b/src/rtmessage/rtMessageHeader.c
@@ -47,18 +47,19 @@ rtMessageHeader_Init(rtMessageHeader* hdr)
   return RT_OK;
 }
 
+#ifdef MSG_ROUNDTRIP_TIME
+static uint16_t const kSizeWithoutStringsInBytes = 52; /* 28 bytes for basic data +
+                                                           4 bytes for Marker +
+                                                          20 bytes for timestamp */
+#else
+static uint16_t const kSizeWithoutStringsInBytes = 32; /* 28 bytes for basic data +
+                                                           4 bytes for Marker */
+#endif
+
 rtError
 rtMessageHeader_Encode(rtMessageHeader* hdr, uint8_t* buff)
 {
   uint8_t* ptr = buff;
-#ifdef MSG_ROUNDTRIP_TIME
-  static uint16_t const kSizeWithoutStringsInBytes = 52; /* 28 bytes for basic data +
-                                                             4 bytes for Marker +
-                                                            20 bytes for timestamp */
-#else
-  static uint16_t const kSizeWithoutStringsInBytes = 32; /* 28 bytes for basic data +
-                                                             4 bytes for Marker */
-#endif
   uint16_t length = kSizeWithoutStringsInBytes
     + strlen(hdr->topic)
     + strlen(hdr->reply_topic);
@@ -93,13 +94,19 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
     return RT_ERROR;
   rtEncoder_DecodeUInt16(&ptr, &hdr->version);
   rtEncoder_DecodeUInt16(&ptr, &hdr->header_length);
+  /* the caller has header_length bytes, and everything up to the closing marker has to be in there */
+  if(hdr->header_length < kSizeWithoutStringsInBytes) {
+    rtLog_Warn("RTROUTED_INVALID_LENGTH: rtMessageHeader_Decode() - header_length %d", hdr->header_length);
+    return RT_ERROR;
+  }
   rtEncoder_DecodeUInt32(&ptr, &hdr->sequence_number);
   rtEncoder_DecodeUInt32(&ptr, &hdr->flags);
   rtEncoder_DecodeUInt32(&ptr, &hdr->control_data);
   rtEncoder_DecodeUInt32(&ptr, &hdr->payload_length);
 
   rtEncoder_DecodeUInt32(&ptr, &hdr->topic_length);
-  if(hdr->topic_length >= sizeof(hdr->topic)) {
+  if(hdr->topic_length >= sizeof(hdr->topic) ||
+     kSizeWithoutStringsInBytes + hdr->topic_length > hdr->header_length) {
     rtLog_Warn("RTROUTED_INVALID_LENGTH: rtMessageHeader_Decode() - topic_length %d", hdr->topic_length);
     return RT_ERROR;
   }
@@ -108,9 +115,11 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
     return RT_ERROR;
   }
   rtEncoder_DecodeStr(&ptr, hdr->topic, hdr->topic_length);
+  hdr->topic[hdr->topic_length] = '\0';
 
   rtEncoder_DecodeUInt32(&ptr, &hdr->reply_topic_length);
-  if(hdr->reply_topic_length >= sizeof(hdr->reply_topic)) {
+  if(hdr->reply_topic_length >= sizeof(hdr->reply_topic) ||
+     kSizeWithoutStringsInBytes + hdr->topic_length + hdr->reply_topic_length > hdr->header_length) {
     rtLog_Warn("RTROUTED_INVALID_LENGTH: rtMessageHeader_Decode() - reply_topic_length %d", hdr->reply_topic_length);
     return RT_ERROR;
   }
@@ -119,6 +128,7 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
     return RT_ERROR;
   }
   rtEncoder_DecodeStr(&ptr, hdr->reply_topic, hdr->reply_topic_length);
+  hdr->reply_topic[hdr->reply_topic_length] = '\0';
 #ifdef MSG_ROUNDTRIP_TIME
   rtEncoder_DecodeUInt32(&ptr, (uint32_t*)&hdr->T1);
   rtEncoder_DecodeUInt32(&ptr, (uint32_t*)&hdr->T2);
-- 
2.43.0


From 37bc5cd23610117023be925e9a3589453295de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 23/65] fix: resolve each found element when discovering
 components for several elements

---
 src/core/rbuscore.c | 60 ++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 42 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 29d87b5..1afdd27 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -2159,53 +2159,29 @@ rbusCoreError_t rbus_discoverElementsObjects(int numElements, const char** eleme
         if((RT_OK == rtMessage_GetInt32(msg, RTM_DISCOVERY_RESULT, &result)) && (RT_OK == result))
         {
             int i;
+            int32_t length = 0;
 
-            for(i = 0; i < numElements && ret == RBUSCORE_SUCCESS; ++i)
+            /*rtrouted lists the components of all the elements one after the other,
+              an element it has no route for adds nothing*/
+            if((RT_OK == rtMessage_GetArrayLength(msg, RTM_DISCOVERY_ITEMS, &length)) && (0 < length))
             {
-                int numComponents = 0;
-                const char* component = NULL;
-
-                if(rtMessage_GetInt32(msg, RTM_DISCOVERY_COUNT, &numComponents) == RT_OK)
+                array_ptr = (char **)rt_try_malloc(length * sizeof(char *));
+                if (!array_ptr)
                 {
-                    char **next = NULL;
-                    if(numComponents)
-                    {
-                        if(!array_ptr)
-                            next = (char **)rt_try_malloc(numComponents * sizeof(char *));
-                        else
-                            next = (char **)rt_try_realloc(array_ptr, (array_count + numComponents) * sizeof(char *));
-                        if (!next)
-                        {
-                            RBUSCORELOG_ERROR("Memory allocation failure");
-                            ret = RBUSCORE_ERROR_GENERAL;
-                            break;
-                        }
-                        array_ptr = next;
-                        for (int j = 0; j < numComponents; j++)
-                        {
-                            if (RT_OK != rtMessage_GetStringItem(msg, RTM_DISCOVERY_ITEMS, array_count, &component))
-                            {
-                                RBUSCORELOG_ERROR("Read item failure");
-                                ret = RBUSCORE_ERROR_GENERAL;
-                                break;
-                            }
-                            if(component[0]) /*rtrouted will put a 0 len string if no route found*/
-                            {
-                                if (NULL == (array_ptr[array_count++] = strndup(component, MAX_OBJECT_NAME_LENGTH)))
-                                {
-                                    RBUSCORELOG_ERROR("Memory allocation failure");
-                                    ret = RBUSCORE_ERROR_GENERAL;
-                                    break;
-                                }
-                            }
-                        }
-                    }
+                    RBUSCORELOG_ERROR("Memory allocation failure");
+                    ret = RBUSCORE_ERROR_GENERAL;
                 }
-                else
+                for(i = 0; i < length && ret == RBUSCORE_SUCCESS; ++i)
                 {
-                    RBUSCORELOG_ERROR("rbus_discoverElementsObjects: failed at %s", elements[i]);
-                    ret = RBUSCORE_ERROR_GENERAL;
-                    break;
+                    const char* component = NULL;
+
+                    if ((RT_OK != rtMessage_GetStringItem(msg, RTM_DISCOVERY_ITEMS, i, &component)) || (NULL == (array_ptr[array_count] = strndup(component, MAX_OBJECT_NAME_LENGTH))))
+                    {
+                        RBUSCORELOG_ERROR("Read/Memory allocation failure");
+                        ret = RBUSCORE_ERROR_GENERAL;
+                        break;
+                    }
+                    array_count++;
                 }
             }
         }
-- 
2.43.0


From 6da6c69eeb2a3e5443cce49bac6b0b6470ace83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 24/65] fix: keep the broker and direct routes running on
 malformed frames and messages

---
 src/rtmessage/rtMessageHeader.c |   4 ++
 src/rtmessage/rtMessageHeader.h |   1 +
 src/rtmessage/rtrouteBase.c     |  63 ++++++++++++-------
 src/rtmessage/rtrouted.c        | 108 ++++++++++++++++++++++----------
 4 files changed, 119 insertions(+), 57 deletions(-)

diff --git a/src/rtmessage/rtMessageHeader.c b/src/rtmessage/rtMessageHeader.c
index c6fa054..b75a56f 100644
--- a/src/rtmessage/rtMessageHeader.c
+++ b/src/rtmessage/rtMessageHeader.c
@@ -103,6 +103,10 @@ rtMessageHeader_Decode(rtMessageHeader* hdr, uint8_t const* buff)
   rtEncoder_DecodeUInt32(&ptr, &hdr->flags);
   rtEncoder_DecodeUInt32(&ptr, &hdr->control_data);
   rtEncoder_DecodeUInt32(&ptr, &hdr->payload_length);
+  if(hdr->payload_length > RTMSG_HEADER_MAX_PAYLOAD_LENGTH) {
+    rtLog_Warn("RTROUTED_INVALID_LENGTH: rtMessageHeader_Decode() - payload_length %u", hdr->payload_length);
+    return RT_ERROR;
+  }
 
   rtEncoder_DecodeUInt32(&ptr, &hdr->topic_length);
   if(hdr->topic_length >= sizeof(hdr->topic) ||
diff --git a/src/rtmessage/rtMessageHeader.h b/src/rtmessage/rtMessageHeader.h
index a2bade5..a98e188 100644
--- a/src/rtmessage/rtMessageHeader.h
+++ b/src/rtmessage/rtMessageHeader.h
@@ -40,6 +40,7 @@ extern "C" {
 #define RTMSG_HEADER_VERSION 2
 #define RTMSG_HEADER_MARKER 0xAAAA
 #define RTMESSAGEHEADER_PREAMBLE_LENGTH 6
+#define RTMSG_HEADER_MAX_PAYLOAD_LENGTH 0x3FFFFFFF /* frame sizes are handled as int */
 #define RTMESSAGEHEADER_HDR_LENGTH_OFFSET 4
 typedef enum
 {
diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 5f8bd67..28c4772 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -214,7 +214,12 @@ _rtdirect_OnMessage(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t con
     uint32_t route_id = 0;
     int32_t add_subscrption = 0;
 
-    rtMessage_FromBytes(&m, buff, n);
+    if(RT_OK != rtMessage_FromBytes(&m, buff, n))
+    {
+      rtLog_Warn("Bad Subscribe message");
+      rtLog_Warn("Sender %s", sender->ident);
+      return RT_OK;
+    }
     if((RT_OK == rtMessage_GetInt32(m, "add", &add_subscrption)) &&
        (RT_OK == rtMessage_GetString(m, "topic", &expression)) &&
        (RT_OK == rtMessage_GetInt32(m, "route_id", (int32_t *)&route_id)))
@@ -332,6 +337,31 @@ rtConnectedClient_Reset(rtConnectedClient *clnt)
   rtMessageHeader_Init(&clnt->header);
 }
 
+static void
+rtConnectedClient_CompleteMessage(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
+{
+  _rtdirect_dispatch_message_from_client(clnt, myDirectRoute);
+#ifdef ENABLE_ROUTER_BENCHMARKING
+  if(clnt->header.flags & rtMessageFlags_Tainted)
+  {
+    clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][1]);
+    if(g_timestamp_index < (MAX_TIMESTAMP_ENTRIES - 1))
+      g_timestamp_index++;
+  }
+#endif
+  rtConnectedClient_Reset(clnt);
+
+  /* If the read buffer was expanded to deal with an unusually large message, shrink it to normal size to free that memory.*/
+  if(RTMSG_CLIENT_READ_BUFFER_SIZE != clnt->read_buffer_capacity)
+  {
+    free(clnt->read_buffer);
+    clnt->read_buffer = (uint8_t *)rt_malloc(RTMSG_CLIENT_READ_BUFFER_SIZE);
+    if(NULL == clnt->read_buffer)
+      rtLog_Fatal("Out of memory to create read buffer.");
+    clnt->read_buffer_capacity = RTMSG_CLIENT_READ_BUFFER_SIZE;
+  }
+}
+
 static rtError
 rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
 {
@@ -387,6 +417,12 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if(header_length <= RTMESSAGEHEADER_PREAMBLE_LENGTH)
+        {
+          rtLog_Warn("Bad header length in message from %s", clnt->ident);
+          rtConnectedClient_Reset(clnt);
+          break;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -427,6 +463,8 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
             break;
           }
         }
+        if(0 == clnt->header.payload_length) /*there is nothing more to read*/
+          rtConnectedClient_CompleteMessage(clnt, myDirectRoute);
       }
     }
     break;
@@ -434,28 +472,7 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
     case rtConnectionState_ReadPayload:
     {
       if (clnt->bytes_read == clnt->bytes_to_read)
-      {
-        _rtdirect_dispatch_message_from_client(clnt, myDirectRoute);
-#ifdef ENABLE_ROUTER_BENCHMARKING
-        if(clnt->header.flags & rtMessageFlags_Tainted)
-        {
-          clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][1]);
-          if(g_timestamp_index < (MAX_TIMESTAMP_ENTRIES - 1))
-            g_timestamp_index++;
-        }
-#endif
-        rtConnectedClient_Reset(clnt);
-        
-        /* If the read buffer was expanded to deal with an unusually large message, shrink it to normal size to free that memory.*/
-        if(RTMSG_CLIENT_READ_BUFFER_SIZE != clnt->read_buffer_capacity)
-        {
-          free(clnt->read_buffer);
-          clnt->read_buffer = (uint8_t *)rt_malloc(RTMSG_CLIENT_READ_BUFFER_SIZE);
-          if(NULL == clnt->read_buffer)
-            rtLog_Fatal("Out of memory to create read buffer.");
-          clnt->read_buffer_capacity = RTMSG_CLIENT_READ_BUFFER_SIZE;
-        }
-      }
+        rtConnectedClient_CompleteMessage(clnt, myDirectRoute);
     }
     break;
   }
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index c5aed89..74f31f2 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -367,14 +367,22 @@ rtRouted_ParseConfig(char const* fname)
 static rtError
 rtRouted_AddRoute(rtRouteMessageHandler handler, char const* exp, rtSubscription* subscription)
 {
+  rtError rc = RT_OK;
   rtRouteEntry* route = (rtRouteEntry *) rt_calloc(1, sizeof(rtRouteEntry));
   route->subscription = subscription;
   route->message_handler = handler;
   rtString_Copy(route->expression, exp, RTMSG_MAX_EXPRESSION_LEN);
   rtVector_PushBack(gRoutes, route);
   rtLog_Debug("AddRoute route=[%p] address=[%s] expression=[%s]", route, subscription->client->ident, exp);
-  rtRoutingTree_AddTopicRoute(gRoutingTree, exp, (void *)route, 0/*ignfore duplicate entry*/);
-  return RT_OK;
+  rc = rtRoutingTree_AddTopicRoute(gRoutingTree, exp, (void *)route, 0/*ignfore duplicate entry*/);
+  if (RT_OK != rc)
+  {
+    rtLog_Warn("Rejecting registration of [%s] by [%s]", exp, subscription->client->ident);
+    rtVector_RemoveItem(gRoutes, route, NULL);
+    free(subscription);
+    free(route);
+  }
+  return rc;
 }
 
 static bool
@@ -500,7 +508,7 @@ rtRouted_SendMessage(rtMessageHeader * request_hdr, rtMessage message, rtConnect
       rtListItem_GetData(item, (void**)&treeRoute);
       rtListItem_GetNext(item, &item);
       route = treeRoute->route;
-      if(route)
+      if(route && route->subscription) /*the daemon's own routes have no client to send to*/
       {
         rtLog_Debug("SendMessage topic=%s expression=%s", request_hdr->topic, route->expression);
         found_dest = 1;
@@ -744,7 +752,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
   uint32_t route_id = 0;
   uint32_t i = 0;
   int32_t add_subscrption = 0;
-  rtMessage m;
+  rtMessage m = NULL;
   rtMessage response = NULL;
   rtError rc = RT_OK;
 
@@ -779,7 +787,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
           subscription->client = sender;
           rc = rtRouted_AddRoute(rtRouted_ForwardMessage, expression, subscription);
 
-          if(strstr(expression, ".INBOX.") && sender->inbox[0] == '\0')
+          if((RT_OK == rc) && strstr(expression, ".INBOX.") && sender->inbox[0] == '\0')
           {
             rtString_Copy(sender->inbox, expression, RTMSG_HEADER_MAX_TOPIC_LENGTH);
             rtLog_Debug("init client inbox to %s", sender->inbox);
@@ -847,7 +855,13 @@ rtRouted_OnMessageHello(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t
     rtLog_Warn("Sender %s", sender->ident);
     return;
   }
-  rtMessage_GetString(m, "inbox", &inbox);
+  if((RT_OK != rtMessage_GetString(m, "inbox", &inbox)) ||
+     (0 != validate_string(inbox, RTMSG_MAX_EXPRESSION_LEN)))
+  {
+    rtLog_Warn("Bad Hello message from %s", sender->ident);
+    rtMessage_Release(m);
+    return;
+  }
 
   rtSubscription* subscription = (rtSubscription *) rt_malloc(sizeof(rtSubscription));
   subscription->id = 0;
@@ -882,8 +896,8 @@ rtRouted_OnMessageTimeOut(rtConnectedClient* sender, rtMessageHeader* hdr, uint8
   rtMessage_GetInt32(m, "T5", (int32_t *)&header.T5);
   rtMessage_GetString(m, "topic", &topic);
   rtMessage_GetString(m, "reply_topic", &reply_topic);
-  snprintf(header.topic, sizeof(header.topic), "%s", topic);
-  snprintf(header.reply_topic, sizeof(header.reply_topic), "%s", reply_topic);
+  snprintf(header.topic, sizeof(header.topic), "%s", topic ? topic : "");
+  snprintf(header.reply_topic, sizeof(header.reply_topic), "%s", reply_topic ? reply_topic : "");
   rtLog_Info("Consumer exist but the request timed out");
   rtRouted_TransactionTimingDetails(header);
 
@@ -1160,11 +1174,21 @@ static void
 rtRouted_OnMessageDiagnostics(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t const* buff, int n)
 {
   rtMessage msg;
-  const char * cmd;
+  const char * cmd = NULL;
 
-  rtMessage_FromBytes(&msg, buff, n);
+  if(RT_OK != rtMessage_FromBytes(&msg, buff, n))
+  {
+    rtLog_Warn("Bad diagnostics message");
+    rtLog_Warn("Sender %s", sender->ident);
+    return;
+  }
 
-  rtMessage_GetString(msg, RTROUTER_DIAG_CMD_KEY, &cmd);
+  if(RT_OK != rtMessage_GetString(msg, RTROUTER_DIAG_CMD_KEY, &cmd))
+  {
+    rtLog_Warn("Bad diagnostics message from %s", sender->ident);
+    rtMessage_Release(msg);
+    return;
+  }
 
   if(0 == strncmp(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS, cmd, sizeof(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS)))
     rtLog_SetLevel(RT_LOG_DEBUG);
@@ -1297,10 +1321,14 @@ rtRouted_OnMessageKeyExchange(rtConnectedClient* sender, rtMessageHeader* hdr, u
 
   (void)hdr;
 
-  rtMessage_FromBytes(&msg, buff, n);
+  if(RT_OK != rtMessage_FromBytes(&msg, buff, n))
+    return;
   err = rtMessage_GetString(msg, "type", &type);
   if (err != RT_OK || !type)
+  {
+    rtMessage_Release(msg);
     return;
+  }
 
   if (strcmp(type, "spake2plus") == 0)
   {
@@ -1515,6 +1543,31 @@ rtRouted_GetClientName(rtConnectedClient* clnt)
   return clnt_name;
 }
 
+static void
+rtConnectedClient_CompleteMessage(rtConnectedClient* clnt)
+{
+  rtRouter_DispatchMessageFromClient(clnt);
+#ifdef ENABLE_ROUTER_BENCHMARKING
+  if(clnt->header.flags & rtMessageFlags_Tainted)
+  {
+    clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][1]);
+    if(g_timestamp_index < (MAX_TIMESTAMP_ENTRIES - 1))
+      g_timestamp_index++;
+  }
+#endif
+  rtConnectedClient_Reset(clnt);
+
+  /* If the read buffer was expanded to deal with an unusually large message, shrink it to normal size to free that memory.*/
+  if(RTMSG_CLIENT_READ_BUFFER_SIZE != clnt->read_buffer_capacity)
+  {
+    free(clnt->read_buffer);
+    clnt->read_buffer = (uint8_t *)rt_malloc(RTMSG_CLIENT_READ_BUFFER_SIZE);
+    if(NULL == clnt->read_buffer)
+      rtLog_Fatal("Out of memory to create read buffer.");
+    clnt->read_buffer_capacity = RTMSG_CLIENT_READ_BUFFER_SIZE;
+  }
+}
+
 static rtError
 rtConnectedClient_Read(rtConnectedClient* clnt)
 {
@@ -1571,6 +1624,12 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if(header_length <= RTMESSAGEHEADER_PREAMBLE_LENGTH)
+        {
+          rtLog_Warn("Bad header length in message from %s - %s", clnt->ident, rtRouted_GetClientName(clnt));
+          rtConnectedClient_Reset(clnt);
+          break;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -1611,6 +1670,8 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
             break;
           }
         }
+        if(0 == clnt->header.payload_length) /*there is nothing more to read*/
+          rtConnectedClient_CompleteMessage(clnt);
       }
     }
     break;
@@ -1618,28 +1679,7 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
     case rtConnectionState_ReadPayload:
     {
       if (clnt->bytes_read == clnt->bytes_to_read)
-      {
-        rtRouter_DispatchMessageFromClient(clnt);
-#ifdef ENABLE_ROUTER_BENCHMARKING
-        if(clnt->header.flags & rtMessageFlags_Tainted)
-        {
-          clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][1]);
-          if(g_timestamp_index < (MAX_TIMESTAMP_ENTRIES - 1))
-            g_timestamp_index++;
-        }
-#endif
-        rtConnectedClient_Reset(clnt);
-        
-        /* If the read buffer was expanded to deal with an unusually large message, shrink it to normal size to free that memory.*/
-        if(RTMSG_CLIENT_READ_BUFFER_SIZE != clnt->read_buffer_capacity)
-        {
-          free(clnt->read_buffer);
-          clnt->read_buffer = (uint8_t *)rt_malloc(RTMSG_CLIENT_READ_BUFFER_SIZE);
-          if(NULL == clnt->read_buffer)
-            rtLog_Fatal("Out of memory to create read buffer.");
-          clnt->read_buffer_capacity = RTMSG_CLIENT_READ_BUFFER_SIZE;
-        }
-      }
+        rtConnectedClient_CompleteMessage(clnt);
     }
     break;
   }
-- 
2.43.0


From 8bc96cdf572637510159792b5d7b3700ed071faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 25/65] fix: let a hash map entry be set from its own value

---
 src/rtmessage/rtHashMap.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/rtmessage/rtHashMap.c b/src/rtmessage/rtHashMap.c
index d59cbc7..b6cf5e2 100644
--- a/src/rtmessage/rtHashMap.c
+++ b/src/rtmessage/rtHashMap.c
@@ -228,11 +228,16 @@ void rtHashMap_Set(rtHashMap hashmap, const void* key, const void* value)
     rtHashMapNode* node = rtVector_Find(bucket, key, rtHashMap_Compare_Node);
     if(node)
     {
+        /*copy before the old ones are destroyed as key and value may belong to them*/
+        const void* old_key = node->key;
+        const void* old_value = node->value;
         rtLog_Debug("Overwritting exist value\n");
-        hashmap->key_destroyer((void*)node->key);
-        hashmap->val_destroyer((void*)node->value);
+        node->key = hashmap->key_copier(key);
+        node->value = hashmap->val_copier(value);
+        hashmap->key_destroyer((void*)old_key);
+        hashmap->val_destroyer((void*)old_value);
     }
-    if(!node)
+    else
     {
         if((hashmap->size+1) / (float)rtVector_Size(hashmap->buckets) > hashmap->load_factor)
         {
@@ -243,9 +248,9 @@ void rtHashMap_Set(rtHashMap hashmap, const void* key, const void* value)
         node->hashmap = hashmap;
         rtVector_PushBack(bucket, node);
         hashmap->size++;
+        node->key = hashmap->key_copier(key);
+        node->value = hashmap->val_copier(value);
     }
-    node->key = hashmap->key_copier(key);
-    node->value = hashmap->val_copier(value);
 }
 
 void* rtHashMap_Get(rtHashMap hashmap, const void* key)
-- 
2.43.0


From 0b23f68ef5c88729703e06102f2ad076297c050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 26/65] fix: check the list before using it when removing by
 comparison

---
 src/rtmessage/rtList.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtList.c b/src/rtmessage/rtList.c
index f8d3098..f52af9d 100644
--- a/src/rtmessage/rtList.c
+++ b/src/rtmessage/rtList.c
@@ -261,10 +261,11 @@ rtError rtList_RemoveItemWithData(rtList list, void* data, rtList_Cleanup destro
 }
 rtError rtList_RemoveItemByCompare(rtList list, const void* comparison, rtList_Compare compare, rtList_Cleanup destroyer)
 {
-  rtListItem item = list->front;
+  rtListItem item;
   RT_CHECK_INVALID_ARG(list);
   RT_CHECK_INVALID_ARG(comparison);
   RT_CHECK_INVALID_ARG(compare);
+  item = list->front;
   while(item)
   {
     if (compare(item->data, comparison) == 0)
-- 
2.43.0


From 1deb1666415462fa99111b1edaf40e8d08748dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 27/65] fix: keep the thread pool within its limit, run every
 accepted task and release the pool once

---
 src/rtmessage/rtThreadPool.c | 47 +++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/rtmessage/rtThreadPool.c b/src/rtmessage/rtThreadPool.c
index 8a9785a..cf2d17b 100644
--- a/src/rtmessage/rtThreadPool.c
+++ b/src/rtmessage/rtThreadPool.c
@@ -68,10 +68,11 @@ void rtThreadPool_CleanupThread(void* data)
   rtLog_Debug("%s exit", __FUNCTION__);
 }
 
+/*Called with the pool locked, by whoever gives up the pool: a thread which no longer counts or the caller of destroy.
+  Only the last one sees both conditions met. It unlocks the pool.*/
 void rtThreadPool_TryRealDestroy(rtThreadPool pool)
 {
   int shouldDestroy;
-  pthread_mutex_lock(&pool->poolLock);
   shouldDestroy = pool->threadCount == 0 && pool->isShutdown == 1;
   pthread_mutex_unlock(&pool->poolLock);
   if(!shouldDestroy)
@@ -86,6 +87,18 @@ void rtThreadPool_TryRealDestroy(rtThreadPool pool)
   rtLog_Debug("%s exit", __FUNCTION__);
 }
 
+static size_t rtThreadPool_QueuedTaskCount(rtThreadPool pool)
+{
+  size_t size = 0;
+  rtList_GetSize(pool->taskList, &size);
+  return size;
+}
+
+static int rtThreadPool_HasQueuedTask(rtThreadPool pool)
+{
+  return rtThreadPool_QueuedTaskCount(pool) > 0;
+}
+
 int rtThread_DequeTask(rtThread thread)
 {
   rtListItem item = NULL;
@@ -118,7 +131,6 @@ void* rtThread_WorkerThreadFunc(void* data)
   rtThread thread = (rtThread)data;
   rtThreadPool pool = thread->pool;
   pthread_mutex_lock(&pool->poolLock);
-  pool->threadCount++;
   while(pool->isRunning)
   {
     while(pool->isRunning && rtThread_DequeTask(thread))
@@ -139,7 +151,8 @@ void* rtThread_WorkerThreadFunc(void* data)
       rtLog_Debug("%s pthread_cond_wait before", __FUNCTION__);
       rc = pthread_cond_timedwait(&pool->taskCond, &pool->poolLock, &expireTime);
       rtLog_Debug("%s pthread_cond_wait after rc=%d", __FUNCTION__, rc);
-      if(rc == ETIMEDOUT)
+      /*a task may have been queued for this thread just when its time was up*/
+      if(rc == ETIMEDOUT && !rtThreadPool_HasQueuedTask(pool))
       { 
         rtLog_Debug("%s thread expired", __FUNCTION__);
         break;
@@ -148,7 +161,6 @@ void* rtThread_WorkerThreadFunc(void* data)
   }
   pool->threadCount--;
   rtList_RemoveItemWithData(pool->threadList, thread, rtThreadPool_CleanupThread);
-  pthread_mutex_unlock(&pool->poolLock);
   rtThreadPool_TryRealDestroy(pool);
   rtLog_Debug("%s exit", __FUNCTION__);
   return NULL;
@@ -157,6 +169,7 @@ void* rtThread_WorkerThreadFunc(void* data)
 rtError rtThreadPool_CreateWorkerThread(rtThreadPool pool)
 {
   rtThread thread;
+  int rc;
   pthread_attr_t attr;
   rtLog_Debug("%s enter", __FUNCTION__);
   thread = rt_try_malloc(sizeof(struct _rtThread));
@@ -164,11 +177,19 @@ rtError rtThreadPool_CreateWorkerThread(rtThreadPool pool)
     return rtErrorFromErrno(ENOMEM);
   thread->pool = pool;
   pthread_attr_init(&attr);
+  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);/*nobody joins the threads*/
   if(pool->stackSize > 0)
     pthread_attr_setstacksize(&attr, pool->stackSize);
-  pthread_create(&thread->threadId, &attr, rtThread_WorkerThreadFunc, thread);
+  rc = pthread_create(&thread->threadId, &attr, rtThread_WorkerThreadFunc, thread);
   pthread_attr_destroy(&attr);
+  if(rc != 0)
+  {
+    free(thread);
+    return rtErrorFromErrno(rc);
+  }
+  /*the caller holds the lock, so the thread only starts working after this*/
   rtList_PushBack(pool->threadList, thread, NULL);
+  pool->threadCount++;
   rtLog_Debug("%s exit", __FUNCTION__);
   return RT_OK;
 }
@@ -229,7 +250,7 @@ int timeGetElapsed(struct timespec* startTime)
   else
   {
     ms = (now.tv_sec - startTime->tv_sec - 1) * 1000 +
-        (1000000000 + now.tv_nsec - startTime->tv_nsec);
+        (1000000000 + now.tv_nsec - startTime->tv_nsec) / 1000000;
   }
   return ms;
 }
@@ -242,13 +263,13 @@ rtError rtThreadPool_StopAllThread(rtThreadPool pool, int waitTimeMS)
   if(waitTimeMS < 0)
   {
     //wait for all tasks to complete
-    while(pool->busyThreadCount > 0)
+    while(pool->busyThreadCount > 0 || (rtThreadPool_HasQueuedTask(pool) && pool->threadCount > 0))
       pthread_cond_wait(&pool->idleCond, &pool->poolLock);
   }
   else //waitTimeMS > 0
   {
     int waitRemainingMS = waitTimeMS;
-    while(waitRemainingMS > 0 && pool->busyThreadCount > 0)
+    while(waitRemainingMS > 0 && (pool->busyThreadCount > 0 || (rtThreadPool_HasQueuedTask(pool) && pool->threadCount > 0)))
     {
       struct timespec startTime, endTime;
       clock_gettime(CLOCK_REALTIME, &startTime);
@@ -284,7 +305,6 @@ rtError rtThreadPool_Destroy(rtThreadPool pool, int waitTimeMS)
   err = rtThreadPool_StopAllThread(pool, waitTimeMS);
   pthread_mutex_lock(&pool->poolLock);
   pool->isShutdown = 1;
-  pthread_mutex_unlock(&pool->poolLock);
   rtThreadPool_TryRealDestroy(pool);
   rtLog_Debug("%s exit", __FUNCTION__);
   return err;
@@ -305,6 +325,7 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
     task = rt_try_malloc(sizeof(struct _rtThreadTask));
     if(!task)
     {
+        rtList_RemoveItem(pool->taskList, item, NULL);
         pthread_mutex_unlock(&pool->poolLock);
         return rtErrorFromErrno(ENOMEM);
     }
@@ -313,8 +334,8 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
   }
   task->func = func;
   task->userData = userData;
-  //find and existing thread to handle the task
-  if(pool->busyThreadCount < pool->threadCount)
+  //find and existing thread to handle the task, which none of the tasks queued before it needs
+  if(rtThreadPool_QueuedTaskCount(pool) <= pool->threadCount - pool->busyThreadCount)
   {
     rtLog_Debug("%s pthread_cond_signal before", __FUNCTION__);
     pthread_cond_signal(&pool->taskCond);
@@ -325,10 +346,12 @@ rtError rtThreadPool_RunTask(rtThreadPool pool, rtThreadPoolFunc func, void* use
     rtLog_Debug("%s creating new thread", __FUNCTION__);
     if((err = rtThreadPool_CreateWorkerThread(pool)) != RT_OK)
     {
+        //a refused task must not run later
+        rtList_RemoveItem(pool->taskList, item, NULL);
         pthread_mutex_unlock(&pool->poolLock);
         return err;
     }
-    if(pool->threadCount == pool->maxThreadCount - 1)
+    if(pool->threadCount == pool->maxThreadCount)
       rtLog_Debug("%s reached max thread count %zu", __FUNCTION__, pool->maxThreadCount);
   }
   else
-- 
2.43.0


From 3727745f447e1f09fc56cf7d9f28219e73aacd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 28/65] fix: token chain: keep whole names for short tokens,
 free the name, do not match an alias the row lacks

---
 src/rbus/rbus_tokenchain.c | 24 ++++++++++--------------
 src/rbus/rbus_tokenchain.h |  1 +
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/rbus/rbus_tokenchain.c b/src/rbus/rbus_tokenchain.c
index f86639d..9a484b9 100644
--- a/src/rbus/rbus_tokenchain.c
+++ b/src/rbus/rbus_tokenchain.c
@@ -76,6 +76,7 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
     char* name = NULL;
     char* ptr = NULL;
     elementNode* node = NULL;
+    bool done = false;
 
     if(regNode == NULL)
     {
@@ -102,6 +103,7 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
     chain->first = chain->last = NULL;
 
     name = strdup(sourceName);
+    chain->name = name;
 
     node = regNode;
 
@@ -111,11 +113,11 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
     RBUSLOG_INFO("%s DEBUG: %s, %s", __FUNCTION__, sourceName, regNode->fullName);
 #   endif
 
-    while(ptr != name && node->parent)
+    while(!done && node->parent)
     {
         Token* tok;
 
-        if(*ptr == '.')
+        if(*ptr == '.' && ptr != name)
         {
             *ptr = 0;
             ptr--;
@@ -125,6 +127,7 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
         {
             ptr--;
         }
+        done = (ptr == name);
 
         tok = rt_malloc(sizeof(Token));
         tok->node = node;
@@ -209,7 +212,7 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
         node = node->parent;
     }
 
-    if(ptr != name || node->parent != NULL)
+    if(!done || node->parent != NULL)
     {
         RBUSLOG_ERROR("ERROR: token count missmatch source=%s node=%s", sourceName, regNode->fullName);
         goto tokenChainError;
@@ -220,15 +223,8 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
 
 tokenChainError:
 
-    next = chain->last;
-    while(next)
-    {
-        Token* last = next;
-        next = next->next;
-        free(last);
-    }
-    free(chain);
-    free(name);
+    chain->first = next;
+    TokenChain_destroy(chain);
     return NULL;
 };
 
@@ -237,14 +233,13 @@ void TokenChain_destroy(TokenChain* chain)
     if(!chain)
         return;
     Token* token = chain->first;
-    if(token)
-        free(token->text);
     while(token)
     {
         Token* next = token->next;
         free(token);
         token = next;
     }
+    free(chain->name);
     free(chain);
 }
 
@@ -306,6 +301,7 @@ bool TokenChain_match(TokenChain* chain, elementNode* instNode)
             }
             else if(token->type == TokenAlias)
             {
+                rc = 1;
                 if(inst->alias)
                 {
                     rc = strcmp(inst->alias, token->text);
diff --git a/src/rbus/rbus_tokenchain.h b/src/rbus/rbus_tokenchain.h
index 6fbd075..632f736 100644
--- a/src/rbus/rbus_tokenchain.h
+++ b/src/rbus/rbus_tokenchain.h
@@ -47,6 +47,7 @@ typedef struct TokenChain
 {
     Token* first;       /* first token in chain */
     Token* last;        /* last token in chain -- if you want to go backwards through list */
+    char* name;         /* the name the tokens' texts point into */
 } TokenChain;
 
 TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode);
-- 
2.43.0


From 10c532d96363974dc2b7af3ff1b104380bad8cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 29/65] fix: element tree: reuse an existing row template when
 a table is registered, clear the freed change component

---
 src/rbus/rbus_element.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 4419739..45b432f 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -357,12 +357,21 @@ elementNode* insertElement(elementNode* root, rbusDataElement_t* elem)
          */
         if(elem->type == RBUS_ELEMENT_TYPE_TABLE)
         {
-            elementNode* rowTemplate = getEmptyElementNode();
-            rowTemplate->parent = currentNode;
-            rowTemplate->name = strdup("{i}");
-            snprintf(buff, RBUS_MAX_NAME_LENGTH, "%s.%s", currentNode->fullName, rowTemplate->name);
-            rowTemplate->fullName = strdup(buff);
-            currentNode->child = rowTemplate;
+            elementNode* rowTemplate = currentNode->child;
+            /* the template exists already if elements below it were registered first
+               or if the table is registered again */
+            while(rowTemplate && strcmp(rowTemplate->name, "{i}") != 0)
+                rowTemplate = rowTemplate->nextSibling;
+            if(!rowTemplate)
+            {
+                rowTemplate = getEmptyElementNode();
+                rowTemplate->parent = currentNode;
+                rowTemplate->name = strdup("{i}");
+                snprintf(buff, RBUS_MAX_NAME_LENGTH, "%s.%s", currentNode->fullName, rowTemplate->name);
+                rowTemplate->fullName = strdup(buff);
+                rowTemplate->nextSibling = currentNode->child;
+                currentNode->child = rowTemplate;
+            }
             currentNode->cbTable.tableSyncHandler = elem->cbTable.methodHandler;
         }
         else
@@ -1191,8 +1200,7 @@ void setPropertyChangeComponent(elementNode* node, char const* componentName)
     VERIFY_NULL(node);
     if(node->changeComp)
         free(node->changeComp);
-    if(componentName)
-        node->changeComp = strdup(componentName);
+    node->changeComp = componentName ? strdup(componentName) : NULL;
     rtTime_Now(&node->changeTime);
 
 }
-- 
2.43.0


From d19dfbb2366c9b1bfa10513d9b532168fd31f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 30/65] fix: value change: publish outside the mutex, never
 join from the provider's own calls, tolerate missing or failing get handlers

---
 src/rbus/rbus_valuechange.c | 99 +++++++++++++++++++++++++++----------
 1 file changed, 72 insertions(+), 27 deletions(-)

diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index db975b2..875a927 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -65,6 +65,9 @@ typedef struct ValueChangeDetector_t
     pthread_mutex_t  mutex;
     pthread_t        thread;
     pthread_cond_t   cond;
+    pthread_cond_t   idle;          //signaled when the polling thread is done publishing
+    unsigned int     round;         //number of the current polling round
+    rbusHandle_t     publishing;    //handle the polling thread is publishing an event for, without holding the mutex
 } ValueChangeDetector_t;
 
 typedef struct ValueChangeRecord
@@ -72,6 +75,7 @@ typedef struct ValueChangeRecord
     rbusHandle_t handle;    //needed when calling rbus_getHandler and rbusEvent_Publish
     elementNode const* node;    //used to call the rbus_getHandler is contains
     rbusProperty_t property;    //the parameter with value that gets cached
+    unsigned int round;         //polling round this record was handled in last
 } ValueChangeRecord;
 
 ValueChangeDetector_t* gVC = NULL;
@@ -90,6 +94,8 @@ static void rbusValueChange_Init()
 
     gVC->running = 0;
     gVC->params = NULL;
+    gVC->round = 0;
+    gVC->publishing = NULL;
 
     rtVector_Create(&gVC->params);
 
@@ -100,6 +106,7 @@ static void rbusValueChange_Init()
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
     ERROR_CHECK(pthread_cond_init(&gVC->cond, &cattrib));
+    ERROR_CHECK(pthread_cond_init(&gVC->idle, NULL));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
 }
 
@@ -124,6 +131,19 @@ static ValueChangeRecord* vcParams_Find(const elementNode* paramNode)
     return NULL;
 }
 
+/*find a record which wasn't handled in the current polling round yet*/
+static ValueChangeRecord* vcParams_FindNext(void)
+{
+    size_t i;
+    for(i=0; i < rtVector_Size(gVC->params); ++i)
+    {
+        ValueChangeRecord* rec = (ValueChangeRecord*)rtVector_At(gVC->params, i);
+        if(rec && rec->round != gVC->round)
+            return rec;
+    }
+    return NULL;
+}
+
 static void* rbusValueChange_pollingThreadFunc(void *userData)
 {
     (void)(userData);
@@ -131,11 +151,18 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
     LOCK();
     while(gVC->running)
     {
-        size_t i;
+        ValueChangeRecord* rec;
         int err;
         rtTime_t timeout;
         rtTimespec_t ts;
 
+        if(rtVector_Size(gVC->params) == 0)
+        {
+            /* there's nothing to poll until a param is added */
+            ERROR_CHECK(pthread_cond_wait(&gVC->cond, &gVC->mutex));
+            continue;
+        }
+
         rtTime_Later(NULL, RBUS_VALUECHANGE_PERIOD, &timeout);
         
         err = pthread_cond_timedwait(&gVC->cond, 
@@ -152,14 +179,15 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             break;
         }
 
-        for(i=0; i < rtVector_Size(gVC->params); ++i)
+        gVC->round++;
+
+        /* the mutex is released while an event is published, so the list can change during the round */
+        while(gVC->running && (rec = vcParams_FindNext()))
         {
             rbusProperty_t property;
             rbusValue_t newVal, oldVal;
 
-            ValueChangeRecord* rec = (ValueChangeRecord*)rtVector_At(gVC->params, i);
-            if(!rec)
-                continue;
+            rec->round = gVC->round;
 
             rbusProperty_Init(&property,rbusProperty_GetName(rec->property), NULL);
 
@@ -174,6 +202,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             if(result != RBUS_ERROR_SUCCESS)
             {
                 RBUSLOG_WARN("failed to get current value of %s", rbusProperty_GetName(property));
+                rbusProperty_Release(property);
                 continue;
             }
 
@@ -216,10 +245,22 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
                 rbusObject_SetValue(data, "by", byVal);
                 rbusValue_Release(byVal);
 
-                event.name = rbusProperty_GetName(rec->property);
+                /*update the record's property with new value*/
+                rbusProperty_SetValue(rec->property, newVal);
+
+                event.name = rbusProperty_GetName(property);
                 event.data = data;
                 event.type = RBUS_EVENT_VALUE_CHANGED;
-                result = rbusEvent_Publish(rec->handle, &event);
+
+                /* rbusEvent_Publish locks the subscriptions of the handle and whoever holds
+                   those can be waiting for our mutex, so we can't hold our mutex here.
+                   rec can be removed from now on. The handle can't be closed before we are done. */
+                gVC->publishing = rec->handle;
+                UNLOCK();
+                result = rbusEvent_Publish(gVC->publishing, &event);
+                LOCK();
+                gVC->publishing = NULL;
+                ERROR_CHECK(pthread_cond_broadcast(&gVC->idle));
 
                 rbusObject_Release(data);
 
@@ -228,8 +269,6 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
                     RBUSLOG_WARN("Event_Publish failed with result=%d", result);
                 }
 
-                /*update the record's property with new value*/
-                rbusProperty_SetValue(rec->property, rbusProperty_GetValue(property));
                 rbusProperty_Release(property);
             }
             else
@@ -261,13 +300,12 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
         return;
     }
     RBUSLOG_DEBUG(" Add Property Node %s", propNode->fullName);
-    assert(propNode->type == RBUS_ELEMENT_TYPE_PROPERTY);
+
     if(propNode->type != RBUS_ELEMENT_TYPE_PROPERTY)
     {
         RBUSLOG_WARN("propNode type %d error", propNode->type);
         return;
     }
-    assert(propNode->cbTable.getHandler);
     if(!propNode->cbTable.getHandler)
     {
         RBUSLOG_WARN("propNode getHandler NULL error");
@@ -313,6 +351,15 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 
         LOCK();//############ LOCK ############
 
+        if(vcParams_Find(propNode))
+        {
+            /* it was added while we got the value */
+            UNLOCK();//############ UNLOCK ############
+            vcParams_Free(rec);
+            return;
+        }
+
+        rec->round = gVC->round;
         rtVector_PushBack(gVC->params, rec);
 
         /* start polling thread if needed */
@@ -322,6 +369,10 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
             gVC->running = 1;
             pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, NULL);
         }
+        else if(rtVector_Size(gVC->params) == 1)
+        {
+            ERROR_CHECK(pthread_cond_signal(&gVC->cond));
+        }
 
         UNLOCK();//############ UNLOCK ############
     }
@@ -330,7 +381,6 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNode)
 {
     ValueChangeRecord* rec;
-    bool stopThread = false;
 
     (void)(handle);
     VERIFY_NULL(propNode);
@@ -345,28 +395,16 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
     rec = vcParams_Find(propNode);
     if(rec)
     {
+        /* if there's nothing left to poll then the polling thread sleeps until a param is added.
+           we can't wait for it to end here because it can be publishing an event, which needs
+           the subscriptions mutex our caller holds. */
         rtVector_RemoveItem(gVC->params, rec, vcParams_Free);
-        /* if there's nothing left to poll then shutdown the polling thread */
-        if(gVC->running && rtVector_Size(gVC->params) == 0)
-        {
-            stopThread = true;
-            gVC->running = 0;
-        }
-        else 
-        {
-            stopThread = false;
-        }
     }
     else
     {
         RBUSLOG_WARN("value change param not found: %s", propNode->fullName);
     }
     UNLOCK();//############ UNLOCK ############
-    if(stopThread)
-    {
-        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
-        ERROR_CHECK(pthread_join(gVC->thread, NULL));
-    }
 }
 
 void rbusValueChange_CloseHandle(rbusHandle_t handle)
@@ -395,6 +433,12 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         }
     }
 
+    //the polling thread might be publishing an event for this handle
+    while(gVC->publishing == handle)
+    {
+        ERROR_CHECK(pthread_cond_wait(&gVC->idle, &gVC->mutex));
+    }
+
     //clean up everything once all params are removed
     //but check the size to ensure we do not clean up if params for other rbus handles exist
     if(rtVector_Size(gVC->params) == 0)
@@ -412,6 +456,7 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         }
         ERROR_CHECK(pthread_mutex_destroy(&gVC->mutex));
         ERROR_CHECK(pthread_cond_destroy(&gVC->cond));
+        ERROR_CHECK(pthread_cond_destroy(&gVC->idle));
         rtVector_Destroy(gVC->params, NULL);
         gVC->params = NULL;
         free(gVC);
-- 
2.43.0


From cc38f717f55a58e5a18bee8d03e2482c1d97b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 31/65] fix: interval subscriptions: no deadlock when the
 duration ends, no event after unsubscribing, independent of row instances

---
 src/rbus/rbus.c                      | 69 ++++++++++++----------------
 src/rbus/rbus_intervalsubscription.c | 68 +++++++++++++++++++--------
 2 files changed, 78 insertions(+), 59 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 1f1fa92..0215b91 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1241,56 +1241,45 @@ int subscribeHandlerImpl(
 
     /* if autoPublish and its a property being subscribed to
        then update rbusValueChange to handle the property */
-    if(rawData && el->type != RBUS_ELEMENT_TYPE_EVENT)
+    if(subscription->interval)
     {
-        RBUSLOG_INFO("rawDataSubscription is only allowed for events");
-        HANDLE_SUBS_MUTEX_UNLOCK(handle);
-        return RBUS_ERROR_INVALID_INPUT;
+        if(!added)
+        {
+            rbusInterval_RemoveSubscriptionRecord(handle, el, subscription);
+        }
+        else if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
+        {
+            RBUSLOG_INFO("subscription with interval event=%s prop=%s", subscription->eventName, el->fullName);
+            if((error = rbusInterval_AddSubscriptionRecord(handle, el, subscription)) != RBUS_ERROR_SUCCESS)
+                RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
+        }
     }
-    else
-    { 
-        if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
+    else if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
+    {
+        rtListItem item;
+        rtList_GetFront(subscription->instances, &item);
+        while(item)
         {
-            rtListItem item;
-            rtList_GetFront(subscription->instances, &item);
-            while(item)
-            {
-                elementNode* node;
+            elementNode* node;
 
-                rtListItem_GetData(item, (void**)&node);
+            rtListItem_GetData(item, (void**)&node);
 
-                if (subscription->interval)
+            if(!elementHasAutoPubSubscriptions(node, subscription))
+            {
+                /* Check if the node has other subscribers or not.  If it has other
+                   subs then we don't need to either add or remove it from ValueChange */
+                RBUSLOG_INFO("ValueChange %s event=%s prop=%s", added ? "Add" : "Remove", subscription->eventName, node->fullName);
+                if(added)
                 {
-                    RBUSLOG_INFO("subscription with interval  %s event=%s prop=%s",
-                            added ? "Add" : "Remove", subscription->eventName, node->fullName);
-                    if(added) {
-                        if((error = rbusInterval_AddSubscriptionRecord(handle, node, subscription)) != RBUS_ERROR_SUCCESS)
-                            RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
-                        break;
-                    }
-                    else
-                    {
-                        rbusInterval_RemoveSubscriptionRecord(handle, node, subscription);
-                        break;
-                    }
+                    rbusValueChange_AddPropertyNode(handle, node);
                 }
-                else if(!elementHasAutoPubSubscriptions(node, subscription))
+                else
                 {
-                    /* Check if the node has other subscribers or not.  If it has other
-                       subs then we don't need to either add or remove it from ValueChange */
-                    RBUSLOG_INFO("ValueChange %s event=%s prop=%s", added ? "Add" : "Remove", subscription->eventName, node->fullName);
-                    if(added)
-                    {
-                        rbusValueChange_AddPropertyNode(handle, node);
-                    }
-                    else
-                    {
-                        rbusValueChange_RemovePropertyNode(handle, node);
-                    }
+                    rbusValueChange_RemovePropertyNode(handle, node);
                 }
-
-                rtListItem_GetNext(item, &item);
             }
+
+            rtListItem_GetNext(item, &item);
         }
     }
 
diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index aa83fe2..02c9322 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -122,9 +122,18 @@ static void* PublishingThreadFunc(void* rec)
         rtTime_t timeout;
         rtTimespec_t ts;
         rtTime_Later(NULL, (sub->interval*1000), &timeout);
-        err = pthread_cond_timedwait(&sub_rec->cond,
-                &sub_rec->mutex,
-                rtTime_ToTimespec(&timeout, &ts));
+        do
+        {
+            err = pthread_cond_timedwait(&sub_rec->cond,
+                    &sub_rec->mutex,
+                    rtTime_ToTimespec(&timeout, &ts));
+        }
+        while(err == 0 && sub_rec->running);
+
+        if(!sub_rec->running)
+        {
+            break;
+        }
 
         if(err != 0 && err != ETIMEDOUT)
         {
@@ -200,15 +209,36 @@ static void* PublishingThreadFunc(void* rec)
             count++;
         }
     }
-    ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
-    if(duration_complete) {
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_subsMutex));
-        rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
-        ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
-        rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+    /* whoever stops this thread holds the subscriptions mutex while waiting for this thread to end,
+       so this thread can't block on that mutex */
+    while(duration_complete && sub_rec->running)
+    {
+        ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
+        if(pthread_mutex_trylock(&handleInfo->handle_subsMutex) == 0)
+        {
+            ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
+            if(sub_rec->running)
+            {
+                ERROR_CHECK(pthread_mutex_lock(&gMutex));
+                rtVector_RemoveItem(gRecord, sub_rec, NULL);
+                ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+                ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
+                sub_Free(sub_rec);
+                rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
+                ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
+                ERROR_CHECK(pthread_detach(pthread_self()));
+                RBUSLOG_DEBUG("%s: stop\n", __FUNCTION__);
+                return NULL;
+            }
+            ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
+        }
+        else
+        {
+            usleep(1000);
+            ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
+        }
     }
+    ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
     RBUSLOG_DEBUG("%s: stop\n", __FUNCTION__);
     return NULL;
 }
@@ -255,9 +285,10 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
 
         /* Thread create */
         sub_rec->running = 1;
-        pthread_create(&sub_rec->thread, NULL, PublishingThreadFunc, (void *)sub_rec);
-
+        ERROR_CHECK(pthread_mutex_lock(&gMutex));
         rtVector_PushBack(gRecord, sub_rec);
+        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+        pthread_create(&sub_rec->thread, NULL, PublishingThreadFunc, (void *)sub_rec);
     }
     return RBUS_ERROR_SUCCESS; 
 }
@@ -284,12 +315,11 @@ void rbusInterval_RemoveSubscriptionRecord(
 
     if(rec)
     {
-        if(rec->running)
-        {
-            rec->running = 0;
-            ERROR_CHECK(pthread_cond_signal(&rec->cond));
-            ERROR_CHECK(pthread_join(rec->thread, NULL));
-        }
+        ERROR_CHECK(pthread_mutex_lock(&rec->mutex));
+        rec->running = 0;
+        ERROR_CHECK(pthread_cond_signal(&rec->cond));
+        ERROR_CHECK(pthread_mutex_unlock(&rec->mutex));
+        ERROR_CHECK(pthread_join(rec->thread, NULL));
         ERROR_CHECK(pthread_mutex_lock(&gMutex));
         rtVector_RemoveItem(gRecord, rec, sub_Free);
         ERROR_CHECK(pthread_mutex_unlock(&gMutex));
-- 
2.43.0


From 95821b78c4788faa34411b874a15e3e538e5c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 32/65] fix: subscriptions: validate the cache when loading,
 save it atomically, keep wildcard subscriptions when a row goes, end what a
 client disconnect leaves

---
 src/rbus/rbus.c               |   2 +
 src/rbus/rbus_subscriptions.c | 179 +++++++++++++++++++++-------------
 2 files changed, 115 insertions(+), 66 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 0215b91..38000ae 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3103,6 +3103,8 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     ERROR_CHECK(pthread_mutexattr_init(&attrib));
     ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_eventSubsMutex, &attrib));
+    /*recursive because subscriptions are changed while going through all of them*/
+    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_RECURSIVE));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_subsMutex, &attrib));
 
     *handle = tmpHandle;
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 4b8a90f..3de083b 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -20,6 +20,7 @@
 #include "rbus_subscriptions.h"
 #include "rbus_buffer.h"
 #include "rbus_handle.h"
+#include "rbus_intervalsubscription.h"
 #include <rtMemory.h>
 #include <string.h>
 #include <assert.h>
@@ -108,7 +109,18 @@ void rbusSubscriptions_create(rbusSubscriptions_t* subscriptions, rbusHandle_t h
 /*destroy a subscriptions registry*/
 void rbusSubscriptions_destroy(rbusSubscriptions_t subscriptions)
 {
+    rtListItem item;
     VERIFY_NULL(subscriptions);
+    /*the interval threads use the subscriptions*/
+    rtList_GetFront(subscriptions->subList, &item);
+    while(item)
+    {
+        rbusSubscription_t* sub;
+        rtListItem_GetData(item, (void**)&sub);
+        if(sub && sub->interval)
+            rbusInterval_RemoveSubscriptionRecord(subscriptions->handle, sub->element, sub);
+        rtListItem_GetNext(item, &item);
+    }
     rtList_Destroy(subscriptions->subList, subscriptionFree);
     free(subscriptions->componentName);
     free(subscriptions->tmpDir);
@@ -305,6 +317,19 @@ static void rbusSubscriptions_onElementCreated(rbusSubscriptions_t subscriptions
     }
 }
 
+/*a subscription with a wildcard isn't bound to specific rows*/
+static bool rbusSubscriptions_hasWildcard(rbusSubscription_t* sub)
+{
+    Token* token = sub->tokens ? sub->tokens->first : NULL;
+    while(token)
+    {
+        if(token->type == TokenWildcard)
+            return true;
+        token = token->next;
+    }
+    return false;
+}
+
 /*called before a node instance is deleted */
 void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, elementNode* node)
 {
@@ -319,7 +344,6 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
             {
                 rtListItem item, tempitem;
                 rbusSubscription_t* sub;
-                bool val=false;
                 rbusSubscription_t* subscription = NULL;
 
                 rtList_GetFront(subscriptions->subList, &item);
@@ -329,6 +353,7 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                 {
                     rtListItem item2;
                     elementNode* inst;
+                    bool val=false;
 
                     rtListItem_GetNext(item, &tempitem);
                     rtListItem_GetData(item, (void**)&sub);
@@ -351,7 +376,7 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                     }
 
                     /* RDKB-38389 : Removing the instance of the row to be removed from the subscriptions->subList linked list */
-                    if(val)
+                    if(val && !rbusSubscriptions_hasWildcard(sub))
                     {
                         subscription = rbusSubscriptions_getSubscription(subscriptions, sub->listener, sub->eventName,
                                 sub->componentId, sub->filter, sub->interval, sub->duration, sub->rawData);
@@ -361,6 +386,8 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                         }
                         else
                         {
+                            if(subscription->interval)
+                                rbusInterval_RemoveSubscriptionRecord(subscriptions->handle, child, subscription);
                             rbusSubscriptions_removeSubscription(subscriptions, subscription);
                         }
                     }
@@ -432,12 +459,47 @@ static bool rbusSubscriptions_isListenerRunning(char const* listener)
     return true;
 }
 
+/*read the type and length in front of a value in the cache file*/
+static bool rbusSubscriptions_readCachedHeader(rbusBuffer_t buff, uint16_t expectedType, uint16_t* length)
+{
+    uint16_t type;
+    if(rbusBuffer_ReadUInt16(buff, &type) < 0) return false;
+    if(rbusBuffer_ReadUInt16(buff, length) < 0) return false;
+    return type == expectedType;
+}
+
+/*read a name from the cache file. the names are stored with their terminator*/
+static char* rbusSubscriptions_readCachedName(rbusBuffer_t buff)
+{
+    uint16_t length;
+    char* name;
+    if(!rbusSubscriptions_readCachedHeader(buff, RBUS_STRING, &length)) return NULL;
+    if(length < 2 || length > RBUS_MAX_NAME_LENGTH || length > buff->posWrite - buff->posRead) return NULL;
+    if(buff->data[buff->posRead + length - 1] != 0) return NULL;
+    name = rt_try_calloc(1, length);
+    if(!name)
+    {
+        RBUSLOG_ERROR("failed to malloc %d bytes for name", length);
+        return NULL;
+    }
+    memcpy(name, buff->data + buff->posRead, length);
+    buff->posRead += length;
+    return name;
+}
+
+static bool rbusSubscriptions_readCachedInt32(rbusBuffer_t buff, int32_t* number)
+{
+    uint16_t length;
+    if(!rbusSubscriptions_readCachedHeader(buff, RBUS_INT32, &length)) return false;
+    if(length != sizeof(int32_t)) return false;
+    return rbusBuffer_ReadInt32(buff, number) >= 0;
+}
+
 static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
 {
     struct stat st;
     long size;
-    uint16_t type, length;
-    int32_t hasFilter;
+    int32_t number;
     FILE* file = NULL;
     rbusBuffer_t buff = NULL;
     rbusSubscription_t* sub = NULL;
@@ -495,77 +557,37 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
             goto remove_bad_file;
         }
         //read listener
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
-
-        sub->listener = rt_calloc(1, length);
-        if(!sub->listener)
-        {
-            RBUSLOG_ERROR("failed to malloc %d bytes for listener", length);
-            goto remove_bad_file;
-        }
-        memcpy(sub->listener, buff->data + buff->posRead, length);
-        buff->posRead += length;
+        if(!(sub->listener = rbusSubscriptions_readCachedName(buff))) goto remove_bad_file;
 
         //read eventName
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
-
-        sub->eventName = rt_try_calloc(1, length);
-        if(!sub->eventName)
-        {
-            RBUSLOG_ERROR("failed to malloc %d bytes for eventName", length);
-            goto remove_bad_file;
-        }
-        memcpy(sub->eventName, buff->data + buff->posRead, length);
-        buff->posRead += length;
+        if(!(sub->eventName = rbusSubscriptions_readCachedName(buff))) goto remove_bad_file;
 
         //read componentId
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->componentId) < 0) goto remove_bad_file;
+        if(!rbusSubscriptions_readCachedInt32(buff, &sub->componentId)) goto remove_bad_file;
 
         //read interval
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->interval) < 0) goto remove_bad_file;
+        if(!rbusSubscriptions_readCachedInt32(buff, &sub->interval)) goto remove_bad_file;
 
-        //read duration        
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &sub->duration) < 0) goto remove_bad_file;
+        //read duration
+        if(!rbusSubscriptions_readCachedInt32(buff, &sub->duration)) goto remove_bad_file;
 
         //read autoPublish
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->autoPublish) < 0) goto remove_bad_file;
+        if(!rbusSubscriptions_readCachedInt32(buff, &number)) goto remove_bad_file;
+        sub->autoPublish = (number != 0);
 
         //read subscriptionId
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->subscriptionId) < 0) goto remove_bad_file;
+        if(!rbusSubscriptions_readCachedInt32(buff, &number)) goto remove_bad_file;
+        sub->subscriptionId = (uint32_t)number;
 
         //read rawData
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->rawData) < 0) goto remove_bad_file;
+        if(!rbusSubscriptions_readCachedInt32(buff, &number)) goto remove_bad_file;
+        sub->rawData = (number != 0);
 
         //read hasFilter
-        if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
-        if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, &hasFilter) < 0) goto remove_bad_file;
+        if(!rbusSubscriptions_readCachedInt32(buff, &number)) goto remove_bad_file;
 
         //read filter
-        if(hasFilter)
+        if(number)
         {
             if(rbusFilter_Decode(&sub->filter, buff) < 0) goto remove_bad_file;
         }
@@ -583,6 +605,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         {
             RBUSLOG_INFO("process no longer running for listener %s", sub->listener);
             subscriptionFree(sub);
+            sub = NULL;
             needSave = true;
             continue;
         }
@@ -595,6 +618,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
             {
                 RBUSLOG_ERROR("file doesn't exist %s", filename);
                 subscriptionFree(sub);
+                sub = NULL;
                 needSave = true;
                 continue;
             }
@@ -604,6 +628,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         rtList_PushBack(subscriptions->subList, sub, NULL);
 
         RBUSLOG_INFO("loaded %s %s", sub->listener, sub->eventName);
+        sub = NULL;
     }
 
     rbusBuffer_Destroy(buff);
@@ -637,8 +662,11 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
     rtListItem item;
     rbusSubscription_t* sub;
     char filePath[256];
+    char newFilePath[256+4];
+    bool written;
 
     snprintf(filePath, 256, CACHE_FILE_PATH_FORMAT, subscriptions->tmpDir, subscriptions->componentName);
+    snprintf(newFilePath, sizeof(newFilePath), "%s.new", filePath);
 
     RBUSLOG_DEBUG("saving Cache %s", filePath);
 
@@ -654,11 +682,13 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         return;
     }
 
-    file = fopen(filePath, "wb");
+    /* write a new file and let it replace the old one so that there's a complete file
+       no matter when this process ends */
+    file = fopen(newFilePath, "wb");
 
     if(!file)
     {
-        RBUSLOG_ERROR("failed to open %s", filePath);
+        RBUSLOG_ERROR("failed to open %s", newFilePath);
         return;
     }
 
@@ -671,6 +701,7 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         {
             rbusBuffer_Destroy(buff);
             fclose(file);
+            remove(newFilePath);
             return;
         }
         rbusBuffer_WriteStringTLV(buff, sub->listener, strlen(sub->listener)+1);
@@ -690,11 +721,18 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         rtListItem_GetNext(item, &item);
     }
 
-    fwrite(buff->data, 1, buff->posWrite, file);
+    written = (fwrite(buff->data, 1, buff->posWrite, file) == (size_t)buff->posWrite);
 
     rbusBuffer_Destroy(buff);
 
-    fclose(file);
+    if(fclose(file) != 0)
+        written = false;
+
+    if(!written || rename(newFilePath, filePath) != 0)
+    {
+        RBUSLOG_ERROR("failed to save %s", filePath);
+        remove(newFilePath);
+    }
 }
 
 /*this is basicially a strcmp with the addition that it will ignore any wildcard (e.g. "*") in the event name
@@ -808,7 +846,10 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
         {
             rtListItem next = NULL;
             rtListItem_GetNext(item, &next);
-            if(strncmp(sub->eventName, rowNode->fullName, strlen(rowNode->fullName)) == 0)
+            size_t rowNameLen = strlen(rowNode->fullName);
+            if(sub->element == NULL && sub->tokens == NULL &&/*not already subscribed*/
+               strncmp(sub->eventName, rowNode->fullName, rowNameLen) == 0 &&
+               (sub->eventName[rowNameLen] == '.' || sub->eventName[rowNameLen] == 0))
             {
                 el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
                 if(el)
@@ -848,14 +889,20 @@ void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscript
         if(strcmp(sub->listener, listener) == 0)
         {
             /* RDKB-38389 : Checking for elementnode existence for which the eventname is subscribed */
-            el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
+            if(sub->element)
+                el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
+            else
+                el = NULL;
             if(el)
             {
-                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, 0, 0, 0, 0, 0);
+                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, 0);
             }
             else
             {
-                RBUSLOG_WARN("rbusSubscriptions_handleClientDisconnect: unexpected! element not found");
+                RBUSLOG_WARN("rbusSubscriptions_handleClientDisconnect: element not found");
+                if(sub->interval)
+                    rbusInterval_RemoveSubscriptionRecord(handle, sub->element, sub);
+                rbusSubscriptions_removeSubscription(subscriptions, sub);
             }
         }
     }
-- 
2.43.0


From 762f0f422d9d35b0e5d3a184af9d7a80831cd746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 33/65] fix: refuse raw data subscriptions before recording
 them, announce no initial value when its get handler failed

---
 src/rbus/rbus.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 38000ae..3c3323d 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1206,6 +1206,11 @@ int subscribeHandlerImpl(
             RBUSLOG_ERROR("rbus interval subscription not supported for this event %s\n", eventName);
             return RBUS_ERROR_INVALID_OPERATION;
         }
+        if(rawData && el->type != RBUS_ELEMENT_TYPE_EVENT)
+        {
+            RBUSLOG_INFO("rawDataSubscription is only allowed for events");
+            return RBUS_ERROR_INVALID_INPUT;
+        }
     }
 
     HANDLE_SUBS_MUTEX_LOCK(handle);
@@ -2777,8 +2782,17 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                         ELM_PRIVATE_LOCK(el);
                         err = el->cbTable.getHandler(handle, tmpProperties, &options);
                         ELM_PRIVATE_UNLOCK(el);
-                        val = rbusProperty_GetValue(tmpProperties);
-                        rbusObject_SetValue(data, "initialValue", val);
+                        if(err == RBUS_ERROR_SUCCESS)
+                        {
+                            val = rbusProperty_GetValue(tmpProperties);
+                            rbusObject_SetValue(data, "initialValue", val);
+                        }
+                        else
+                        {
+                            rbusMessage_SetInt32(*response, 0); /* No initial value returned, as get handler failed */
+                            rbusProperty_Release(tmpProperties);
+                            RBUSLOG_WARN("Get handler failed %s", event_name);
+                        }
                     }
                     else
                     {
-- 
2.43.0


From 6f455fd4e56c1b68a6a0351cfa2d872a8a57cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 34/65] fix: subscriptions: row numbers above INT_MAX,
 subscriptions bound to a deleted row, resubscribing by alias, table and
 wildcard name

---
 src/rbus/rbus_subscriptions.c | 88 ++++++++++++++---------------------
 src/rbus/rbus_tokenchain.c    |  2 +-
 2 files changed, 37 insertions(+), 53 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 3de083b..8c53a86 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -330,6 +330,14 @@ static bool rbusSubscriptions_hasWildcard(rbusSubscription_t* sub)
     return false;
 }
 
+/*whether the element is the given node or below it*/
+static bool rbusSubscriptions_isBelow(elementNode* el, elementNode* node)
+{
+    while(el && el != node)
+        el = el->parent;
+    return el != NULL;
+}
+
 /*called before a node instance is deleted */
 void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, elementNode* node)
 {
@@ -414,8 +422,26 @@ void rbusSubscriptions_onTableRowAdded(rbusSubscriptions_t subscriptions, elemen
 
 void rbusSubscriptions_onTableRowRemoved(rbusSubscriptions_t subscriptions, elementNode* node)
 {
+    rtListItem item, next;
     VERIFY_NULL(subscriptions);
     rbusSubscriptions_onElementDeleted(subscriptions, node);
+
+    /*a subscription can also be bound to the row itself without having any instance, such as
+      Device.WiFi.AccessPoint.1.AssociatedDevice.*.SignalStrength when AccessPoint.1 is deleted*/
+    rtList_GetFront(subscriptions->subList, &item);
+    while(item)
+    {
+        rbusSubscription_t* sub;
+        rtListItem_GetNext(item, &next);
+        rtListItem_GetData(item, (void**)&sub);
+        if(rbusSubscriptions_isBelow(sub->element, node))
+        {
+            if(sub->interval)
+                rbusInterval_RemoveSubscriptionRecord(subscriptions->handle, sub->element, sub);
+            rbusSubscriptions_removeSubscription(subscriptions, sub);
+        }
+        item = next;
+    }
 }
 
 static pid_t rbusSubscriptions_getListenerPid(char const* listener)
@@ -737,50 +763,6 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
 
 /*this is basicially a strcmp with the addition that it will ignore any wildcard (e.g. "*") in the event name
   if there's a corresponding table row tag (e.g. "{i}") in the element name */
-static int _compareEventNameToElemName(char const* event, char const* elem)
-{
-    const char* p1 = event;
-    const char* p2 = elem;
-    for(;;)
-    {
-        if(*p1)
-        {
-            if(*p2)
-            {
-                if(*p1 == *p2)
-                {
-                    p1++;
-                    p2++;
-                }
-                else
-                {
-                    if(*p1 == '*')
-                    {
-                        if(strncmp(p2, "{i}", 3) == 0)
-                        {
-                            p1++;
-                            p2+=3;
-                        }
-                        else
-                            return 1;
-                    }
-                    else
-                        return 1;
-                }
-            }
-            else
-                return 1;
-        }
-        else
-        {
-            if(*p2)
-                return 1;
-            else
-                return 0;
-        }
-    }
-}
-
 void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscriptions_t subscriptions, char const* elementName, elementNode* el)
 {
     rtListItem item;
@@ -798,15 +780,19 @@ void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscrip
 
         VERIFY_NULL(sub);
 
-        if(sub->element == NULL && sub->tokens == NULL &&/*not already subscribed*/
-           _compareEventNameToElemName(sub->eventName, elementName) == 0)
+        elementNode* eventEl = NULL;
+
+        if(sub->element == NULL && sub->tokens == NULL)/*not already subscribed*/
+            eventEl = retrieveInstanceElement(subscriptions->root, sub->eventName);
+
+        if(eventEl && rbusSubscriptions_isBelow(eventEl, el))
         {
             rtListItem next;
             rbusError_t err;
             RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
             rtListItem_GetNext(item, &next);
             rtList_RemoveItem(subscriptions->subList, item, NULL);/*remove before calling subscribeHandlerImpl to avoid dupes in cache file*/
-            err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
+            err = subscribeHandlerImpl(handle, true, eventEl, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
             /*TODO figure out what to do if we get an error resubscribing
             It's conceivable that a provider might not like the sub due to some state change between this and the previous process run
             */
@@ -846,13 +832,11 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
         {
             rtListItem next = NULL;
             rtListItem_GetNext(item, &next);
-            size_t rowNameLen = strlen(rowNode->fullName);
-            if(sub->element == NULL && sub->tokens == NULL &&/*not already subscribed*/
-               strncmp(sub->eventName, rowNode->fullName, rowNameLen) == 0 &&
-               (sub->eventName[rowNameLen] == '.' || sub->eventName[rowNameLen] == 0))
+            if(sub->element == NULL && sub->tokens == NULL)/*not already subscribed*/
             {
+                /*the event can name the row by its number or by its alias*/
                 el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
-                if(el)
+                if(el && rbusSubscriptions_isBelow(el, rowNode))
                 {
                     RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
                     rtList_RemoveItem(subscriptions->subList, item, NULL);
diff --git a/src/rbus/rbus_tokenchain.c b/src/rbus/rbus_tokenchain.c
index 9a484b9..295dadd 100644
--- a/src/rbus/rbus_tokenchain.c
+++ b/src/rbus/rbus_tokenchain.c
@@ -192,7 +192,7 @@ TokenChain* TokenChain_create(char const* sourceName, elementNode* regNode)
                 }
                 else /* instance number */
                 {
-                    if(atoi(tok->text) > 0)
+                    if(strtoul(tok->text, NULL, 10) > 0)
                     {
                         tok->type = TokenInstNum;
                     }
-- 
2.43.0


From 21f73247d3a17b85a04e417fee0ff8d9e688438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 35/65] fix: refuse filters with unknown operators or unbounded
 nesting, cached names with embedded terminators; terminate the debug text of
 an empty message

---
 src/core/rbuscore_message.c   |  1 +
 src/rbus/rbus.c               |  7 +++++--
 src/rbus/rbus_filter.c        | 26 ++++++++++++++++++++++----
 src/rbus/rbus_subscriptions.c |  2 +-
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/core/rbuscore_message.c b/src/core/rbuscore_message.c
index d39631c..7fba653 100644
--- a/src/core/rbuscore_message.c
+++ b/src/core/rbuscore_message.c
@@ -138,6 +138,7 @@ void rbusMessage_ToDebugString(rbusMessage const m, char** s, uint32_t* n)
     int size = ALLOC_INCREMENT;
     char * buffer = (char *)rt_malloc(size);
     *s = buffer;
+    buffer[0] = '\0';
 
     int saved_offset = m->read_offset;
     m->read_offset = 0;
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 3c3323d..c40cdc4 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -931,8 +931,11 @@ void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
         rbusValue_t val;
         if(rbusMessage_GetString(msg, &name) != RT_OK)
             return;
-        if(rbusValue_initFromMessage(&val, msg) == RBUS_ERROR_SUCCESS)
+        if(rbusValue_initFromMessage(&val, msg) == RBUS_ERROR_SUCCESS &&
+            op >= RBUS_FILTER_OPERATOR_GREATER_THAN && op <= RBUS_FILTER_OPERATOR_NOT_EQUAL)
+        {
             rbusFilter_InitRelation(filter, op, val);
+        }
         rbusValue_Release(val);
     }
     else if(type == RBUS_FILTER_EXPRESSION_LOGIC)
@@ -943,7 +946,7 @@ void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg)
         if(left && op != RBUS_FILTER_OPERATOR_NOT)
             rbusFilter_InitFromMessage(&right, msg);
         g_messageNesting--;
-        if(left && (right || op == RBUS_FILTER_OPERATOR_NOT))
+        if(left && (right ? (op == RBUS_FILTER_OPERATOR_AND || op == RBUS_FILTER_OPERATOR_OR) : op == RBUS_FILTER_OPERATOR_NOT))
             rbusFilter_InitLogic(filter, op, left, right);
         if(left)
             rbusFilter_Release(left);
diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index dc492d2..6b90bd2 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -241,7 +241,10 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     }
 }
 
-static int filterDecode(rbusFilter_t* filterOut, rbusBuffer_t const buff, bool optional)
+/*nested expressions are read recursively, and this limits how deep that can get*/
+#define RBUS_FILTER_MAX_NESTING 256
+
+static int filterDecode(rbusFilter_t* filterOut, rbusBuffer_t const buff, bool optional, int nesting)
 {
     uint16_t    type;
     uint16_t    length;
@@ -252,6 +255,11 @@ static int filterDecode(rbusFilter_t* filterOut, rbusBuffer_t const buff, bool o
     rbusValue_t val;
     rbusFilter_t left = NULL, right = NULL;
 
+    if(nesting > RBUS_FILTER_MAX_NESTING)
+    {
+        RBUSLOG_WARN("rbusFilter_Decode: nested too deep");
+        return -1;
+    }
     if(rbusBuffer_ReadUInt16(buff, &type) < 0)
         return -1;
     if(rbusBuffer_ReadUInt16(buff, &length) < 0)
@@ -282,6 +290,11 @@ static int filterDecode(rbusFilter_t* filterOut, rbusBuffer_t const buff, bool o
         }
         if(rbusBuffer_ReadUInt32(buff, &relOp) < 0)
             return -1;
+        if(relOp > RBUS_FILTER_OPERATOR_NOT_EQUAL)
+        {
+            RBUSLOG_WARN("rbusFilter_Decode: unknown operator");
+            return -1;
+        }
         if(rbusValue_Decode(&val, buff) < 0)
             return -1;
 
@@ -301,9 +314,14 @@ static int filterDecode(rbusFilter_t* filterOut, rbusBuffer_t const buff, bool o
         }
         if(rbusBuffer_ReadUInt32(buff, &logOp) < 0)
             return -1;
-        if(filterDecode(&left, buff, false) < 0)
+        if(logOp > RBUS_FILTER_OPERATOR_NOT)
+        {
+            RBUSLOG_WARN("rbusFilter_Decode: unknown operator");
+            return -1;
+        }
+        if(filterDecode(&left, buff, false, nesting + 1) < 0)
             return -1;
-        if(filterDecode(&right, buff, logOp == RBUS_FILTER_OPERATOR_NOT) < 0)
+        if(filterDecode(&right, buff, logOp == RBUS_FILTER_OPERATOR_NOT, nesting + 1) < 0)
         {
             rbusFilter_Release(left);
             return -1;
@@ -325,7 +343,7 @@ static int filterDecode(rbusFilter_t* filterOut, rbusBuffer_t const buff, bool o
 
 int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
 {
-    return filterDecode(filterOut, buff, false);
+    return filterDecode(filterOut, buff, false, 0);
 }
 
 int rbusFilter_Compare(rbusFilter_t filter1, rbusFilter_t filter2)
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 8c53a86..e549b6d 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -501,7 +501,7 @@ static char* rbusSubscriptions_readCachedName(rbusBuffer_t buff)
     char* name;
     if(!rbusSubscriptions_readCachedHeader(buff, RBUS_STRING, &length)) return NULL;
     if(length < 2 || length > RBUS_MAX_NAME_LENGTH || length > buff->posWrite - buff->posRead) return NULL;
-    if(buff->data[buff->posRead + length - 1] != 0) return NULL;
+    if(memchr(buff->data + buff->posRead, 0, length) != buff->data + buff->posRead + length - 1) return NULL;
     name = rt_try_calloc(1, length);
     if(!name)
     {
-- 
2.43.0


From 0d797898196b9a982f207f9d4f164083c521c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 36/65] fix: multi-parameter reads and writes: roll back
 everything in reverse order, name the failing parameter, keep every result
 when a wildcard is among the names; refuse duplicate or non-table rows

---
 src/core/rbuscore.c |  10 +-
 src/rbus/rbus.c     | 463 +++++++++++++++++++++++---------------------
 2 files changed, 252 insertions(+), 221 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 1afdd27..5958597 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -1910,7 +1910,7 @@ rbusCoreError_t rbus_discoverWildcardDestinations(const char * expression, int *
 
         if((RT_OK == rtMessage_GetInt32(msg, RTM_DISCOVERY_RESULT, &result)) && (RT_OK == result))
         {
-            int32_t size, length, i;
+            int32_t size = 0, length = 0, i;
 
             rtMessage_GetInt32(msg, RTM_DISCOVERY_COUNT, &size);
             rtMessage_GetArrayLength(msg, RTM_DISCOVERY_ITEMS, &length);
@@ -1920,12 +1920,12 @@ rbusCoreError_t rbus_discoverWildcardDestinations(const char * expression, int *
                 RBUSCORELOG_ERROR("rbus_resolveWildcardDestination size missmatch");
             }
 
-            if(size && length)
+            if(length > 0)
             {
-                char **array_ptr = (char **)rt_try_malloc(size * sizeof(char *));
-                *count = size;
+                char **array_ptr = (char **)rt_try_malloc(length * sizeof(char *));
                 if (NULL != array_ptr)
                 {
+                    *count = length;
                     *destinations = array_ptr;
                     memset(array_ptr, 0, (length * sizeof(char *)));
                     for (i = 0; i < length; i++)
@@ -1935,6 +1935,8 @@ rbusCoreError_t rbus_discoverWildcardDestinations(const char * expression, int *
                             for (int j = 0; j < i; j++)
                                 free(array_ptr[j]);
                             free(array_ptr);
+                            *destinations = NULL;
+                            *count = 0;
                             RBUSCORELOG_ERROR("Read/Memory allocation failure");
                             ret = RBUSCORE_ERROR_GENERAL;
                             break;
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index c40cdc4..9204d40 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1300,6 +1300,42 @@ int subscribeHandlerImpl(
     return RBUS_ERROR_SUCCESS;
 }
 
+/*a table which exists, not the registration of one inside of another table's rows*/
+static bool isTableInstance(elementNode const* el)
+{
+    return el && el->type == RBUS_ELEMENT_TYPE_TABLE && !strstr(el->fullName, "{i}");
+}
+
+/*a row which exists, not the row registration of a table*/
+static bool isRowInstance(elementNode const* el)
+{
+    return el && isTableInstance(el->parent) && strcmp(el->name, "{i}") != 0;
+}
+
+static elementNode* findTableRow(elementNode* tableInstElem, uint32_t const* instNum, char const* aliasName, int* numRows)
+{
+    elementNode* found = NULL;
+    elementNode* child;
+    char name[32] = "";
+    int count = 0;
+
+    if(instNum)
+        snprintf(name, sizeof(name), "%u", *instNum);
+
+    for(child = tableInstElem->child; child; child = child->nextSibling)
+    {
+        if(strcmp(child->name, "{i}") == 0)
+            continue;
+        count++;
+        if((instNum && strcmp(child->name, name) == 0) ||
+           (aliasName && child->alias && strcmp(child->alias, aliasName) == 0))
+            found = child;
+    }
+    if(numRows)
+        *numRows = count;
+    return found;
+}
+
 static void registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, char const* tableName, char const* aliasName, uint32_t instNum)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
@@ -1632,8 +1668,14 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                            {
                                 rbusProperty_Init(&currentData, paramName, NULL);
                                 ELM_PRIVATE_LOCK(el);
-                                rc = el->cbTable.getHandler(handle, currentData, &options);
+                                err = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
+                                if(err != RBUS_ERROR_SUCCESS)
+                                {
+                                    RBUSLOG_INFO("%s has no current value to go back to",paramName);
+                                    rbusProperty_Release(currentData);
+                                    currentData = NULL;
+                                }
                            }
                            else
                                 RBUSLOG_INFO("%s is a write only parameter",paramName);
@@ -1648,25 +1690,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         {
                             RBUSLOG_WARN("Set Failed for %s; Component Owner returned Error", paramName);
                             pFailedElement = paramName;
-                            if(rollBack == 1)
-                            {
-                                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
-                                /*===========< Rollback old values >============*/
-                                rbusProperty_t prevProp = cachedData;
-                                while(prevProp)
-                                {
-                                    char const* prevParamName = rbusProperty_GetName(prevProp);
-                                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
-                                    ELM_PRIVATE_LOCK(el);
-                                    err = el->cbTable.setHandler(handle, prevProp, &opts);
-                                    ELM_PRIVATE_UNLOCK(el);
-                                    prevProp = rbusProperty_GetNext(prevProp);
-                                    if(err != RBUS_ERROR_SUCCESS)
-                                    {
-                                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
-                                    }
-                                }
-                            }
+                            if(currentData)
+                                rbusProperty_Release(currentData);
                             break;
                         }
                         else
@@ -1675,13 +1700,13 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                             /* ======== < Old values backup >============= */
                             if (currentData)
                             {
-                                if (cachedData == NULL)
-                                    cachedData = currentData;
-                                else
+                                /* newest first: the order in which they are put back */
+                                if (cachedData)
                                 {
-                                    rbusProperty_Append(cachedData, currentData);
-                                    rbusProperty_Release(currentData);
+                                    rbusProperty_SetNext(currentData, cachedData);
+                                    rbusProperty_Release(cachedData);
                                 }
+                                cachedData = currentData;
                             }
 
                         }
@@ -1691,8 +1716,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         RBUSLOG_WARN("Set Failed for %s; No Handler found", paramName);
                         rc = RBUS_ERROR_NOT_WRITABLE;
                         pFailedElement = paramName;
-                        if(cachedData)
-                           rbusProperty_Release(cachedData);
                         break;
                     }
                 }
@@ -1719,16 +1742,38 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
         pFailedElement = pCompName;
     }
 
+    if(rc != RBUS_ERROR_SUCCESS && cachedData)
+    {
+        /*===========< Rollback old values >============*/
+        rbusProperty_t prevProp;
+        RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
+        opts.commit = isCommit;
+        for(prevProp = cachedData; prevProp; prevProp = rbusProperty_GetNext(prevProp))
+        {
+            char const* prevParamName = rbusProperty_GetName(prevProp);
+            elementNode* el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
+            if(!el || !el->cbTable.setHandler)
+                continue;
+            ELM_PRIVATE_LOCK(el);
+            err = el->cbTable.setHandler(handle, prevProp, &opts);
+            ELM_PRIVATE_UNLOCK(el);
+            if(err != RBUS_ERROR_SUCCESS)
+            {
+                RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
+            }
+        }
+    }
+
 exit:
     rbusMessage_Init(response);
     rbusMessage_SetInt32(*response, (int) rc);
     if (rc == RBUS_ERROR_SUCCESS)
     {
         rbusPropertyList_appendToMessage(cachedData, *response);
-        rbusProperty_Release(cachedData);
     }
     else if(pFailedElement)
         rbusMessage_SetString(*response, pFailedElement);
+    rbusProperty_Release(cachedData);
 
     if(pProperties)
     {
@@ -1935,6 +1980,7 @@ rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *par
 
     /* Update the Get Handler input options */
     rbusGetHandlerOptions_t options;
+    memset(&options, 0, sizeof(options));
     options.requestingComponent = pRequestingComp;
 
     /* Have the backup of given name */
@@ -2031,6 +2077,7 @@ static rbusError_t _get_single_dml_handler (rbusHandle_t handle, char const *par
     rbusError_t result = RBUS_ERROR_SUCCESS;
     /* Update the Get Handler input options */
     rbusGetHandlerOptions_t options;
+    memset(&options, 0, sizeof(options));
     options.requestingComponent = pRequestingComp;
 
     RBUSLOG_DEBUG("calling get single for [%s]", parameterName);
@@ -2069,14 +2116,13 @@ static rbusError_t _get_single_dml_handler (rbusHandle_t handle, char const *par
 
 static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbusMessage *response)
 {
-    int paramSize = 0, numInited = 0, i = 0;
+    int paramSize = 0, numValues = 0, i = 0;
     rbusError_t result = RBUS_ERROR_SUCCESS;
     char const *parameterName = NULL;
     char const *pCompName = NULL;
-    rbusProperty_t* properties = NULL;
-    rbusGetHandlerOptions_t options;
+    rbusProperty_t properties = NULL;/*the results, after an unused first item*/
+    rbusProperty_t last = NULL;
 
-    memset(&options, 0, sizeof(options));
     rbusMessage_GetString(request, &pCompName);
     rbusMessage_GetInt32(request, &paramSize);
 
@@ -2084,98 +2130,59 @@ static void _get_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
 
     if(paramSize > 0)
     {
-        /* Update the Get Handler input options */
-        options.requestingComponent = pCompName;
+        rbusProperty_Init(&properties, "tmpProp", NULL);
+        last = properties;
 
-        properties = rt_try_malloc(paramSize*sizeof(rbusProperty_t));
-        if(properties)
+        for(i = 0; i < paramSize; i++)
         {
-            for(i = 0; i < paramSize; i++)
+            parameterName = NULL;
+            if(rbusMessage_GetString(request, &parameterName) != RT_OK)
             {
-                parameterName = NULL;
-                if(rbusMessage_GetString(request, &parameterName) != RT_OK)
-                {
-                    RBUSLOG_WARN("Get Failed as %s did send %d names only", pCompName, i);
-                    result = RBUS_ERROR_INVALID_INPUT;
-                    break;
-                }
+                RBUSLOG_WARN("Get Failed as %s did send %d names only", pCompName, i);
+                result = RBUS_ERROR_INVALID_INPUT;
+                break;
+            }
 
-                RBUSLOG_DEBUG("Param Name [%d]:[%s]", i, parameterName);
+            RBUSLOG_DEBUG("Param Name [%d]:[%s]", i, parameterName);
 
-                rbusProperty_Init(&properties[i], parameterName, NULL);
-                numInited++;
-
-                /* Check for wildcard query */
-                if (_is_wildcard_query(parameterName))
-                {
-                    rbusProperty_t xproperties, first;
-                    rbusValue_t xtmp;
-                    int count = 0;
-                            
-                    rbusValue_Init(&xtmp);
-                    rbusValue_SetString(xtmp, "tmpValue");
-                    rbusProperty_Init(&xproperties, "tmpProp", xtmp);
-                    rbusValue_Release(xtmp);
-                    result = get_recursive_wildcard_handler(handle, parameterName, pCompName, xproperties, &count);
-                    rbusMessage_Init(response);
-                    rbusMessage_SetInt32(*response, (int) result);
-                    if (result == RBUS_ERROR_SUCCESS)
-                    {
-                        rbusMessage_SetInt32(*response, count);
-                        if (count > 0)
-                        {
-                            first = rbusProperty_GetNext(xproperties);
-                            for(i = 0; i < count; i++)
-                            {
-                                rbusValue_appendToMessage(rbusProperty_GetName(first), rbusProperty_GetValue(first), *response);
-                                first = rbusProperty_GetNext(first);
-                            }
-                        }
-                    }
-                    /* Release the memory */
-                    rbusProperty_Release(xproperties);
-                    for (i = 0; i < numInited; i++)
-                    {
-                        rbusProperty_Release(properties[i]);
-                    }
-                    free (properties);
-                    return;
-                }
-                else
-                {
-                    //Do a look up and call the corresponding method
-                    result = _get_single_dml_handler(handle, parameterName, pCompName, properties[i]);
-                    if (result != RBUS_ERROR_SUCCESS)
-                        break;
-                }
+            /* Check for wildcard query */
+            if (_is_wildcard_query(parameterName))
+            {
+                int count = 0;
+                result = get_recursive_wildcard_handler(handle, parameterName, pCompName, last, &count);
+                numValues += count;
             }
-        }
-        else
-        {
-            RBUSLOG_WARN("Failed to malloc %d properties", paramSize);
-            result = RBUS_ERROR_OUT_OF_RESOURCES;
+            else
+            {
+                //Do a look up and call the corresponding method
+                rbusProperty_t property;
+                rbusProperty_Init(&property, parameterName, NULL);
+                result = _get_single_dml_handler(handle, parameterName, pCompName, property);
+                rbusProperty_SetNext(property, NULL);/*one value per parameter*/
+                rbusProperty_SetNext(last, property);
+                rbusProperty_Release(property);
+                numValues++;
+            }
+            if (result != RBUS_ERROR_SUCCESS)
+                break;
+            while(rbusProperty_GetNext(last))
+                last = rbusProperty_GetNext(last);
         }
 
         rbusMessage_Init(response);
         rbusMessage_SetInt32(*response, (int) result);
-        if(properties)
+        if (result == RBUS_ERROR_SUCCESS)
         {
-            if (result == RBUS_ERROR_SUCCESS)
-            {
-                rbusMessage_SetInt32(*response, paramSize);
-                for(i = 0; i < paramSize; i++)
-                {
-                    rbusValue_appendToMessage(rbusProperty_GetName(properties[i]), rbusProperty_GetValue(properties[i]), *response);
-                }
-            }
-        
-            /* Free the memory, regardless of success or not.. */
-            for (i = 0; i < numInited; i++)
+            rbusMessage_SetInt32(*response, numValues);
+            last = rbusProperty_GetNext(properties);
+            for(i = 0; i < numValues && last; i++)
             {
-                rbusProperty_Release(properties[i]);
+                rbusValue_appendToMessage(rbusProperty_GetName(last), rbusProperty_GetValue(last), *response);
+                last = rbusProperty_GetNext(last);
             }
-            free (properties);
         }
+        /* Free the memory, regardless of success or not.. */
+        rbusProperty_Release(properties);
     }
     else
     {
@@ -2328,7 +2335,7 @@ static void _get_parameter_names_handler (rbusHandle_t handle, rbusMessage reque
         {
             if(strcmp(child->name, "{i}") != 0)
             {
-                rbusMessage_SetInt32(*response, atoi(child->name));
+                rbusMessage_SetInt32(*response, (int32_t)strtoul(child->name, NULL, 10));
                 rbusMessage_SetString(*response, child->alias ? child->alias : "");
             }
             child = child->nextSibling;
@@ -2430,9 +2437,15 @@ static void _table_add_row_callback_handler (rbusHandle_t handle, rbusMessage re
     elementNode* tableRegElem = retrieveElement(handleInfo->elementRoot, tableName);
     elementNode* tableInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, tableName, true);
 
-    if(tableRegElem && tableInstElem)
+    if(tableRegElem && isTableInstance(tableInstElem))
     {
-        if(tableRegElem->cbTable.tableAddRowHandler)
+        int numRows = 0;
+        if(findTableRow(tableInstElem, NULL, aliasName, &numRows))
+        {
+            RBUSLOG_WARN("alias [%s] is taken in table [%s]", aliasName, tableName);
+            result = RBUS_ERROR_INVALID_INPUT;
+        }
+        else if(tableRegElem->cbTable.tableAddRowHandler)
         {
             RBUSLOG_DEBUG("calling tableAddRowHandler table [%s] alias [%s]", tableName, aliasName);
 
@@ -2442,7 +2455,16 @@ static void _table_add_row_callback_handler (rbusHandle_t handle, rbusMessage re
 
             if (result == RBUS_ERROR_SUCCESS)
             {
-                registerTableRow(handle, tableInstElem, tableName, aliasName, instNum);
+                int numRowsNow = 0;
+                if(!findTableRow(tableInstElem, &instNum, NULL, &numRowsNow))
+                {
+                    registerTableRow(handle, tableInstElem, tableName, aliasName, instNum);
+                }
+                else if(numRowsNow == numRows) /*otherwise the handler registered the row itself*/
+                {
+                    RBUSLOG_WARN("row [%u] exists in table [%s]", instNum, tableName);
+                    result = RBUS_ERROR_INVALID_INPUT;
+                }
             }
             else
             {
@@ -2482,7 +2504,7 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
     elementNode* rowRegElem = retrieveElement(handleInfo->elementRoot, rowName);
     elementNode* rowInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, rowName, true);
 
-    if(rowRegElem && rowInstElem)
+    if(rowRegElem && isRowInstance(rowInstElem))
     {
         /*switch to the row's table */
         elementNode* tableRegElem = rowRegElem->parent;
@@ -3749,6 +3771,9 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
+    *retProperties = NULL;
+    *numValues = 0;
+
     if ((1 == paramCount))
     {
         if (!_is_wildcard_query(pParamNames[0]))
@@ -3756,10 +3781,6 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
             rbusProperty_t outputVals = NULL;
             rbusValue_t getVal = NULL;
 
-            /* Initialize */
-            *retProperties = NULL;
-            *numValues = 0;
-
             /*Do get the single param */
             errorcode = rbus_get(handle, pParamNames[0], &getVal);
             if(RBUS_ERROR_SUCCESS == errorcode)
@@ -3778,15 +3799,14 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
         else
         {
             int numDestinations = 0;
-            char** destinations;
+            char** destinations = NULL;
+            rbusError_t failure = RBUS_ERROR_SUCCESS;
             //int length = strlen(pParamNames[0]);
 
             err = rbus_discoverWildcardDestinations(pParamNames[0], &numDestinations, &destinations);
             if (RBUSCORE_SUCCESS == err)
             {
                 RBUSLOG_DEBUG("Query for expression %s was successful. See result below:", pParamNames[0]);
-                rbusProperty_t last = NULL;
-                *numValues = 0;
                 if (0 == numDestinations)
                 {
                     RBUSLOG_DEBUG("It is possibly a table entry from single component.");
@@ -3816,48 +3836,29 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                         }
                         else
                         {
-                            if (0 == i)
+                            rbusProperty_t tmpProperties = NULL;
+
+                            if((errorcode = _getExt_response_parser(response, &tmpNumOfValues, &tmpProperties)) != RBUS_ERROR_SUCCESS)
                             {
-                                if((errorcode = _getExt_response_parser(response, &tmpNumOfValues, retProperties)) != RBUS_ERROR_SUCCESS)
-                                {
-                                    RBUSLOG_ERROR("error parsing response %d", errorcode);
-                                }
-                                else
-                                {
-                                    if(tmpNumOfValues > 0)
-                                        last = *retProperties;
-                                }
+                                RBUSLOG_ERROR("error parsing response %d", errorcode);
                             }
-                            else
+                            else if(tmpProperties)
                             {
-                                rbusProperty_t tmpProperties = NULL;
-
-                                if((errorcode = _getExt_response_parser(response, &tmpNumOfValues, &tmpProperties)) != RBUS_ERROR_SUCCESS)
+                                if(*retProperties)
                                 {
-                                    RBUSLOG_ERROR("error parsing response %d", errorcode);
+                                    rbusProperty_Append(*retProperties, tmpProperties);
+                                    rbusProperty_Release(tmpProperties);
                                 }
                                 else
                                 {
-                                    if(tmpNumOfValues > 0 && tmpProperties)
-                                    {
-                                        if(NULL != last)
-                                        {
-                                            rbusProperty_Append(last, tmpProperties);
-                                        }
-                                        else
-                                        {
-                                            last = tmpProperties;
-                                            *retProperties = last;
-                                        }
-                                    }
+                                    *retProperties = tmpProperties;
                                 }
-                                rbusProperty_Release(tmpProperties);
                             }
                         }
                         if (errorcode != RBUS_ERROR_SUCCESS)
                         {
                             RBUSLOG_WARN("Failed to get the data from %s Component", destinations[i]);
-                            break;
+                            failure = errorcode;
                         }
                         else
                         {
@@ -3868,14 +3869,14 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                     for(i = 0; i < numDestinations; i++)
                         free(destinations[i]);
                     free(destinations);
-                    if ((*retProperties != NULL) && (errorcode != RBUS_ERROR_SUCCESS))
+                    if ((*retProperties != NULL) && (failure != RBUS_ERROR_SUCCESS))
                     {
                         RBUSLOG_WARN("Query for expression %s was partially successful", pParamNames[0]);
                         return RBUS_ERROR_SUCCESS;
                     }
                     else 
                     {
-                        return errorcode;
+                        return failure;
                     }
                 }
             }
@@ -3889,7 +3890,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
 
     {
         rbusMessage request, response;
-        int numComponents;
+        int numComponents = 0;
         char** componentNames = NULL;
 
         /*discover which components have some ownership of the params in the list*/
@@ -3914,13 +3915,15 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
 
             if(errorcode == RBUS_ERROR_INVALID_INPUT)
             {
+                for(i = 0; i < paramCount; ++i)
+                {
+                    if(componentNames[i])
+                        free(componentNames[i]);
+                }
                 free(componentNames);
                 return RBUS_ERROR_INVALID_INPUT;
             }
 
-            *retProperties = NULL;/*NULL to mark first batch*/
-            *numValues = 0;
-
             /*batch by component*/
             for(;;)
             {
@@ -3949,7 +3952,8 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                 if(componentName)
                 {
                     rbusMessage_Init(&request);
-                    rbusMessage_SetString(request, componentName);
+                    /* Set the Component name that invokes the get */
+                    rbusMessage_SetString(request, handleInfo->componentName);
                     rbusMessage_SetInt32(request, batchCount);
 
                     RBUSLOG_DEBUG("batchCount %d", batchCount);
@@ -3983,6 +3987,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                         if((errorcode = _getExt_response_parser(response, &batchNumVals, &batchResult)) != RBUS_ERROR_SUCCESS)
                         {
                             RBUSLOG_ERROR("error parsing response %d", errorcode);
+                            break;
                         }
                         else
                         {
@@ -3991,7 +3996,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                             {
                                 *retProperties = batchResult;
                             }
-                            else /*append subsequent batches*/
+                            else if(batchResult) /*append subsequent batches*/
                             {
                                 rbusProperty_Append(*retProperties, batchResult);
                                 rbusProperty_Release(batchResult);
@@ -4005,12 +4010,23 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                     break;
                 }
             }
+            if(errorcode != RBUS_ERROR_SUCCESS)
+            {
+                rbusProperty_Release(*retProperties);
+                *retProperties = NULL;
+                *numValues = 0;
+            }
         }
         else
         {
             errorcode = RBUS_ERROR_DESTINATION_NOT_FOUND;
             RBUSLOG_ERROR("Discover component names failed with error %d and counts %d/%d", errorcode, paramCount, numComponents);
         }
+        for(i = 0; i < numComponents && componentNames; ++i)
+        {
+            if(componentNames[i])
+                free(componentNames[i]);
+        }
         if(componentNames)
             free(componentNames);
     }
@@ -4250,9 +4266,10 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
     rbusValueType_t type = RBUS_NONE;
     rbusProperty_t current;
-    uint32_t cachedNumProps = 0;
     rbusProperty_t cachedProperties = NULL;
     VERIFY_NULL(handle);
+    if(pFailedElement)
+        *pFailedElement = NULL;
     if(timeout == 0)
         timeout = rbusHandle_FetchSetMultiTimeout(handle);
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
@@ -4262,9 +4279,12 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
 
     if (numProps > 0 && properties != NULL)
     {
-        if (rbusProperty_Count(properties) == 1)
+        if (numProps == 1 && rbusProperty_Count(properties) == 1)
         {
-            return _setInternal(handle, rbusProperty_GetName(properties), rbusProperty_GetValue(properties), opts, timeout);
+            errorcode = _setInternal(handle, rbusProperty_GetName(properties), rbusProperty_GetValue(properties), opts, timeout);
+            if(errorcode != RBUS_ERROR_SUCCESS && pFailedElement && rbusProperty_GetName(properties))
+                *pFailedElement = strdup(rbusProperty_GetName(properties));
+            return errorcode;
         }
 
         char const** pParamNames;
@@ -4324,11 +4344,18 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                 {
                     RBUSLOG_ERROR("Cannot find component for %s", rbusProperty_GetName(current));
                     errorcode = RBUS_ERROR_INVALID_INPUT;
+                    if(pFailedElement && !*pFailedElement)
+                        *pFailedElement = strdup(rbusProperty_GetName(current));
                 }
             }
 
             if(errorcode == RBUS_ERROR_INVALID_INPUT)
             {
+                for(i = 0; i < numProps; ++i)
+                {
+                    if(componentNames[i])
+                        free(componentNames[i]);
+                }
                 free(componentNames);
                 free(pParamNames);
                 return RBUS_ERROR_INVALID_INPUT;
@@ -4400,6 +4427,8 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                     {
                         RBUSLOG_ERROR("%s for %s failed with error: %s", __FUNCTION__, firstParamName, rbusCoreErrorToString(err));
                         errorcode = rbusCoreError_to_rbusError(err);
+                        if(pFailedElement && firstParamName)
+                            *pFailedElement = strdup(firstParamName);
                     }
                     else
                     {
@@ -4414,56 +4443,28 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                         {
                             errorcode = RBUS_ERROR_SUCCESS;
                             RBUSLOG_DEBUG("Successfully Set the Value");
-                            rbusPropertyList_initFromMessage(&cachedProperties, setResponse);
-                            pFailedElement = NULL;
-                        }
-                        else
-                        {
-                            if(pFailedElement)
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                *pFailedElement = strdup((char*)pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value For %s", *pFailedElement);
-                            }
-                            else
-                            {
-                                rbusMessage_GetString(setResponse, &pErrorReason);
-                                RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason);
-                            }
-                            if(rollBack)
+                            rbusProperty_t previous = NULL;
+                            rbusPropertyList_initFromMessage(&previous, setResponse);
+                            if(previous)
                             {
-                                char *pTempFailedElement = NULL;
-                                rbusSetOptions_t revertOpts;
-                                if ((opts) && (opts->sessionId != 0))
+                                if(cachedProperties)
                                 {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId= opts->sessionId;
-                                }
-                                else
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId = 0;
-                                }
-                                cachedNumProps = 0;
-                                cachedNumProps = rbusProperty_Count(cachedProperties);
-                                rbusError_t result;
-                                result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
-                                if(result == RBUS_ERROR_SUCCESS)
-                                    RBUSLOG_DEBUG("Successfully reverted back the values");
-                                else if((result != RBUS_ERROR_SUCCESS) && (pTempFailedElement))
-                                {
-                                    RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
-                                    free(pTempFailedElement);
+                                    rbusProperty_Append(previous, cachedProperties);
+                                    rbusProperty_Release(cachedProperties);
                                 }
+                                cachedProperties = previous;
                             }
+                        }
+                        else
+                        {
+                            rbusMessage_GetString(setResponse, &pErrorReason);
+                            RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason);
+                            if(pFailedElement && pErrorReason)
+                                *pFailedElement = strdup(pErrorReason);
                             if(legacyRetCode > RBUS_LEGACY_ERR_SUCCESS)
                             {
                                 errorcode = CCSPError_to_rbusError(legacyRetCode);
                             }
-                            if (componentName)
-                                free(componentName);
-                            rbusMessage_Release(setResponse);
-                            break;
                         }
 
                         /* Release the reponse message */
@@ -4471,12 +4472,34 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                     }
                     if (componentName)
                         free(componentName);
+                    if (errorcode != RBUS_ERROR_SUCCESS)
+                        break;
                 }
                 else
                 {
                     break;
                 }
             }
+            for(i = 0; i < numProps; ++i)
+            {
+                if(componentNames[i])
+                    free(componentNames[i]);
+            }
+            if(errorcode != RBUS_ERROR_SUCCESS && rollBack && cachedProperties)
+            {
+                rbusSetOptions_t revertOpts;
+                rbusError_t result;
+                char* failed = NULL;
+                revertOpts.commit = true;
+                revertOpts.sessionId = opts ? opts->sessionId : 0;
+                result = _setMultiInternal(handle, rbusProperty_Count(cachedProperties), cachedProperties, &revertOpts, timeout, &failed, false);
+                if(result == RBUS_ERROR_SUCCESS)
+                    RBUSLOG_DEBUG("Successfully reverted back the values");
+                else
+                    RBUSLOG_WARN("Failed to rollback %s", failed ? failed : "");
+                if(failed)
+                    free(failed);
+            }
         }
         else
         {
@@ -4719,7 +4742,7 @@ rbusError_t rbusTable_registerRow(
     char const* aliasName)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
-    char rowName[RBUS_MAX_NAME_LENGTH] = {0};
+    char name[RBUS_MAX_NAME_LENGTH] = {0};
     int rc;
 
     VERIFY_NULL(handleInfo);
@@ -4728,30 +4751,32 @@ rbusError_t rbusTable_registerRow(
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
-    rc = snprintf(rowName, RBUS_MAX_NAME_LENGTH, "%s%d", tableName, instNum);
+    /*table names end with a dot*/
+    rc = snprintf(name, RBUS_MAX_NAME_LENGTH, "%s%s", tableName, tableName[0] && tableName[strlen(tableName)-1] == '.' ? "" : ".");
     if(rc < 0 || rc >= RBUS_MAX_NAME_LENGTH)
     {
         RBUSLOG_WARN("invalid table name %s", tableName);
         return RBUS_ERROR_INVALID_INPUT;
     }
 
-    elementNode* rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
-    elementNode* tableInstElem = retrieveInstanceElement(handleInfo->elementRoot, tableName);
+    if(aliasName && aliasName[0] == 0)
+        aliasName = NULL;
+
+    elementNode* tableInstElem = retrieveInstanceElement(handleInfo->elementRoot, name);
 
-    if(rowInstElem)
+    if(!isTableInstance(tableInstElem))
     {
-        RBUSLOG_WARN("row already exists %s", rowName);
+        RBUSLOG_WARN("table does not exist %s", tableName);
         return RBUS_ERROR_INVALID_INPUT;
     }
 
-    if(!tableInstElem)
+    if(findTableRow(tableInstElem, &instNum, aliasName, NULL))
     {
-        RBUSLOG_WARN("table does not exist %s", tableName);
+        RBUSLOG_WARN("row already exists %s%u", name, instNum);
         return RBUS_ERROR_INVALID_INPUT;
     }
 
-    RBUSLOG_DEBUG("register table row %s", rowName);
-    registerTableRow(handle, tableInstElem, tableName, aliasName, instNum);
+    registerTableRow(handle, tableInstElem, name, aliasName, instNum);
     return RBUS_ERROR_SUCCESS;
 }
 
@@ -4769,7 +4794,7 @@ rbusError_t rbusTable_unregisterRow(
 
     elementNode* rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
 
-    if(!rowInstElem)
+    if(!isRowInstance(rowInstElem))
     {
         RBUSLOG_DEBUG("row does not exists %s", rowName);
         return RBUS_ERROR_INVALID_INPUT;
@@ -4863,7 +4888,7 @@ rbusError_t rbusTable_getRowNames(
                     errorcode = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
                     break;
                 }
-                snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%d.", tableName, instNum);
+                snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%u.", tableName, (uint32_t)instNum);
                 tmpNames[i].name = strdup(fullName);
                 tmpNames[i].instNum = instNum;
                 tmpNames[i].alias = alias && alias[0] != '\0' ? strdup(alias) : NULL;
@@ -4922,6 +4947,7 @@ rbusError_t rbusElementInfo_get(
     rbusElementInfo_t** elemInfo)
 {
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
+    rbusError_t failure = RBUS_ERROR_SUCCESS;
     rbusCoreError_t err = RBUSCORE_SUCCESS;
     rbusMessage request, response;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
@@ -5037,13 +5063,16 @@ rbusError_t rbusElementInfo_get(
             }
             rbusMessage_Release(response);
         }
+        if(errorcode != RBUS_ERROR_SUCCESS)
+            failure = errorcode;
     }
 
     for(d = 0; d < numDestinations; d++)
         free(destinations[d]);
     free(destinations);
 
-    return errorcode;
+    /*answered by the providers that can*/
+    return runningCount > 0 ? RBUS_ERROR_SUCCESS : failure;
 }
 
 rbusError_t rbusElementInfo_free(
-- 
2.43.0


From 1f7f1648f4994aea715c9b641c1e4a6116757be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 37/65] fix: rows of tables with a get handler stay removable,
 and a handler may give a row number twice as before

---
 src/rbus/rbus.c | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 9204d40..1facde0 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1336,6 +1336,32 @@ static elementNode* findTableRow(elementNode* tableInstElem, uint32_t const* ins
     return found;
 }
 
+/*the rows of a table with a get handler resolve to the row registration: finds the row itself, if there is one*/
+static elementNode* findOwnRow(elementNode* rowInstElem, char const* rowName)
+{
+    elementNode* child;
+    size_t len = strlen(rowName);
+    char const* token;
+
+    if(strcmp(rowInstElem->name, "{i}") != 0)
+        return rowInstElem;
+
+    if(len && rowName[len-1] == '.')
+        len--;
+    for(token = rowName + len; token > rowName && token[-1] != '.'; token--);
+    len -= token - rowName;
+
+    for(child = rowInstElem->parent->child; child; child = child->nextSibling)
+    {
+        if(child == rowInstElem)
+            continue;
+        if((strlen(child->name) == len && strncmp(child->name, token, len) == 0) ||
+           (child->alias && len == strlen(child->alias) + 2 && token[0] == '[' && strncmp(child->alias, token+1, len-2) == 0))
+            return child;
+    }
+    return NULL;
+}
+
 static void registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, char const* tableName, char const* aliasName, uint32_t instNum)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
@@ -1670,7 +1696,7 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 err = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
-                                if(err != RBUS_ERROR_SUCCESS)
+                                if(err != RBUS_ERROR_SUCCESS || !rbusProperty_GetValue(currentData) || rbusValue_GetType(rbusProperty_GetValue(currentData)) == RBUS_NONE)
                                 {
                                     RBUSLOG_INFO("%s has no current value to go back to",paramName);
                                     rbusProperty_Release(currentData);
@@ -2456,15 +2482,8 @@ static void _table_add_row_callback_handler (rbusHandle_t handle, rbusMessage re
             if (result == RBUS_ERROR_SUCCESS)
             {
                 int numRowsNow = 0;
-                if(!findTableRow(tableInstElem, &instNum, NULL, &numRowsNow))
-                {
+                if(!findTableRow(tableInstElem, &instNum, NULL, &numRowsNow) || numRowsNow == numRows)/*otherwise the handler registered the row itself*/
                     registerTableRow(handle, tableInstElem, tableName, aliasName, instNum);
-                }
-                else if(numRowsNow == numRows) /*otherwise the handler registered the row itself*/
-                {
-                    RBUSLOG_WARN("row [%u] exists in table [%s]", instNum, tableName);
-                    result = RBUS_ERROR_INVALID_INPUT;
-                }
             }
             else
             {
@@ -2504,7 +2523,7 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
     elementNode* rowRegElem = retrieveElement(handleInfo->elementRoot, rowName);
     elementNode* rowInstElem = retrieveInstanceElementEx(handle, handleInfo->elementRoot, rowName, true);
 
-    if(rowRegElem && isRowInstance(rowInstElem))
+    if(rowRegElem && (isRowInstance(rowInstElem) || (rowInstElem && isTableInstance(rowInstElem->parent) && rowInstElem->parent->cbTable.getHandler)))
     {
         /*switch to the row's table */
         elementNode* tableRegElem = rowRegElem->parent;
@@ -2522,7 +2541,12 @@ static void _table_remove_row_callback_handler (rbusHandle_t handle, rbusMessage
 
                 if (result == RBUS_ERROR_SUCCESS)
                 {
-                    unregisterTableRow(handle, rowInstElem);
+                    /*the handler may have unregistered the row itself*/
+                    rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
+                    if(rowInstElem)
+                        rowInstElem = findOwnRow(rowInstElem, rowName);
+                    if(rowInstElem)
+                        unregisterTableRow(handle, rowInstElem);
                 }
                 else
                 {
@@ -4794,7 +4818,7 @@ rbusError_t rbusTable_unregisterRow(
 
     elementNode* rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
 
-    if(!isRowInstance(rowInstElem))
+    if(!rowInstElem)
     {
         RBUSLOG_DEBUG("row does not exists %s", rowName);
         return RBUS_ERROR_INVALID_INPUT;
-- 
2.43.0


From b1d598280466462719dc4d90a7edb2de0be72b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 38/65] fix: value-change events carry the filter result to its
 subscriber only, wildcard reads go on past rows without the nested row, a
 re-established subscription keeps its kind, empty names

---
 src/rbus/rbus.c | 62 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 1facde0..7da5a3e 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1029,6 +1029,8 @@ bool _is_valid_get_query(char const* name)
         int length = strlen (name);
         int temp = 0;
         temp = length - 1;
+        if (length == 0)
+            return false;
         if (('!' == name[temp]) ||
             (')' == name[temp]) ||
             (NULL != strstr (name, "(")))
@@ -1056,6 +1058,8 @@ bool _is_wildcard_query(char const* name)
         int length = strlen (name);
         int temp = 0;
         temp = length - 1;
+        if (length == 0)
+            return false;
 
         if (('.' == name[temp]) || (NULL != strstr (name, "*")))
         {
@@ -2047,6 +2051,11 @@ rbusError_t get_recursive_wildcard_handler (rbusHandle_t handle, char const *par
             {
                 snprintf (wildcardName, RBUS_MAX_NAME_LENGTH, "%s%s%s", instanceName, child->name, tmpPtr);
                 result = get_recursive_wildcard_handler(handle, wildcardName, pRequestingComp, properties, pCount);
+                if (result == RBUS_ERROR_ELEMENT_DOES_NOT_EXIST)
+                {
+                    /* not every row has the nested rows asked for */
+                    result = RBUS_ERROR_SUCCESS;
+                }
                 if (result != RBUS_ERROR_SUCCESS)
                 {
                     RBUSLOG_WARN("Something went wrong while retriving the datamodel value...");
@@ -2777,7 +2786,6 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
                 tmpptr= strchr(event_name, '*');
                 if(tmpptr)
                 {
-                    rbusProperty_t tmpProperties = NULL;
                     rbusProperty_Init(&tmpProperties, "numberOfEntries", NULL);
                     get_recursive_wildcard_handler(handleInfo, event_name,
                             "initialValue", tmpProperties, &actualCount);
@@ -2810,8 +2818,8 @@ static void _subscribe_callback_handler (rbusHandle_t handle, rbusMessage reques
 
                         rbusMessage_GetInt32(tableResponse, &instNum);
                         rbusMessage_GetString(tableResponse, &alias);
-                        snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%d.", event_name, instNum);
-                        snprintf(row_instance, RBUS_MAX_NAME_LENGTH, "path%d", instNum);
+                        snprintf(fullName, RBUS_MAX_NAME_LENGTH, "%s%u.", event_name, (uint32_t)instNum);
+                        snprintf(row_instance, RBUS_MAX_NAME_LENGTH, "path%u", (uint32_t)instNum);
                         rbusProperty_AppendString(tmpProperties, row_instance, fullName);
                     }
                     rbusMessage_Release(tableRequest);
@@ -5394,11 +5402,18 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
                     rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
                 }
                 subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
+                int32_t subscriptionId = 0;
+                if(response)
+                    rbusMessage_GetInt32(response, &subscriptionId);
                 subInternal->sub = sub;
                 subInternal->dirty = false;
+                subInternal->rawData = rawData;
+                subInternal->subscriptionId = subscriptionId;
                 rtVector_PushBack(handleInfo->eventSubs, subInternal);
                 RBUSLOG_INFO("EVENT_SUBSCRIPTION_ALREADY_EXIST  %s", subInternal->sub->eventName);
                 HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                if(response)
+                    rbusMessage_Release(response);
                 return RBUS_ERROR_SUCCESS;
             }
             else
@@ -6105,6 +6120,31 @@ rbusError_t  rbusEvent_PublishRawData(
     return rc;
 }
 
+static rbusObject_t copyWithFilterResult(rbusObject_t data, bool result)
+{
+    rbusObject_t copy;
+    rbusProperty_t property;
+    rbusValue_t filterResult;
+
+    rbusObject_Init(&copy, rbusObject_GetName(data));
+    for(property = rbusObject_GetProperties(data); property; property = rbusProperty_GetNext(property))
+    {
+        rbusProperty_t item;
+        rbusProperty_Init(&item, rbusProperty_GetName(property), rbusProperty_GetValue(property));
+        if(rbusObject_GetProperties(copy))
+            rbusProperty_Append(rbusObject_GetProperties(copy), item);
+        else
+            rbusObject_SetProperties(copy, item);
+        rbusProperty_Release(item);
+    }
+    rbusObject_SetChildren(copy, rbusObject_GetChildren(data));
+    rbusValue_Init(&filterResult);
+    rbusValue_SetBoolean(filterResult, result);
+    rbusObject_SetValue(copy, "filter", filterResult);
+    rbusValue_Release(filterResult);
+    return copy;
+}
+
 rbusError_t  rbusEvent_Publish(
   rbusHandle_t          handle,
   rbusEvent_t*          eventData)
@@ -6159,6 +6199,8 @@ rbusError_t  rbusEvent_Publish(
     while(listItem)
     {
         bool publish = true;
+        rbusEvent_t filteredEvent = *eventData;
+        rbusEvent_t* toPublish = eventData;
 
         rtListItem_GetData(listItem, (void**)&subscription);
         if(!subscription || !subscription->eventName || !subscription->listener)
@@ -6188,12 +6230,10 @@ rbusError_t  rbusEvent_Publish(
 
                 if(newResult != oldResult)
                 {
-                    /*set 'filter' to true/false implying that either the filter has started or stopped matching*/
-                    rbusValue_t filterResult = NULL;
-                    rbusValue_Init(&filterResult);
-                    rbusValue_SetBoolean(filterResult, newResult != 0);
-                    rbusObject_SetValue(eventData->data, "filter", filterResult);
-                    rbusValue_Release(filterResult);                    
+                    /*set 'filter' to true/false implying that either the filter has started or stopped matching.
+                      Only this subscriber gets it: the other ones did not use this filter*/
+                    filteredEvent.data = copyWithFilterResult(eventData->data, newResult != 0);
+                    toPublish = &filteredEvent;
                 }
                 else
                 {
@@ -6207,7 +6247,7 @@ rbusError_t  rbusEvent_Publish(
             rbusMessage msg;
             rbusMessage_Init(&msg);
 
-            rbusEventData_appendToMessage(eventData, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
+            rbusEventData_appendToMessage(toPublish, subscription->filter, subscription->interval, subscription->duration, subscription->componentId, msg);
 
             RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s", subscription->eventName, subscription->listener);
 
@@ -6227,6 +6267,8 @@ rbusError_t  rbusEvent_Publish(
                 RBUSLOG_ERROR("rbusEvent_Publish failed: rbus_publishSubscriberEvent return error %d", err);
             }
         }
+        if(toPublish == &filteredEvent)
+            rbusObject_Release(filteredEvent.data);
         rtListItem_GetNext(listItem, &listItem);
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
-- 
2.43.0


From 3bc213b060f2bed5e24dcd7a97c449a528b7be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 39/65] fix: unsubscribing from a topic removes only the route
 of that subscription

Several routes of one client to one topic were all matched by client and topic alone.
---
 src/rtmessage/rtrouted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 74f31f2..12ac75f 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -802,7 +802,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         {
           rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
 
-          if((route->subscription) && (0 == strncmp(route->expression, expression, RTMSG_MAX_EXPRESSION_LEN)) && (route->subscription->client == sender))
+          if((route->subscription) && (0 == strncmp(route->expression, expression, RTMSG_MAX_EXPRESSION_LEN)) && (route->subscription->client == sender) && (route->subscription->id == route_id))
           {
             rtRouted_ClearRoute(route);
             route_removed = 1;
-- 
2.43.0


From 61a5d16db987eb5e24e40b17067e056021e73cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 40/65] fix: message listeners are found by topic and id, and
 ids are unique in the process

Two handles of one process listening to one topic got each other's listener removed.
---
 src/rbus/rbus_message.c | 47 ++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/rbus/rbus_message.c b/src/rbus/rbus_message.c
index 4197fa7..7dbb488 100644
--- a/src/rbus/rbus_message.c
+++ b/src/rbus/rbus_message.c
@@ -53,8 +53,17 @@ typedef struct
     void*                 userData;
     rtConnection          connection;
     uint32_t              subscriptionId;
+    uint32_t              listenerId;
 } rbusMessageHandlerContext_t;
 
+/* The connection and the broker tell the listeners of one process apart by this id, while the ids passed by the callers
+   (0, or a number given by some provider) may be the same for several listeners. */
+static uint32_t nextListenerId(void)
+{
+    static uint32_t id = 0x40000000;
+    return __sync_fetch_and_add(&id, 1);
+}
+
 rbusError_t rtError_to_rBusError(rtError e)
 {
     rbusError_t err;
@@ -110,11 +119,15 @@ static void cleanupContext(void * p)
     }
 }
 
-static int compareContextExpression(const void *left, const void *right)
+static int compareContext(const void *left, const void *right)
 {
-    if((!left)||(!right))
+    const rbusMessageHandlerContext_t* l = (const rbusMessageHandlerContext_t*)left;
+    const rbusMessageHandlerContext_t* r = (const rbusMessageHandlerContext_t*)right;
+    if((!l)||(!r))
         return -1;
-    return strcmp(((const rbusMessageHandlerContext_t*)left)->expression, (const char*)right);
+    if(l->subscriptionId != r->subscriptionId)
+        return 1;
+    return strcmp(l->expression, r->expression);
 }
 
 rbusError_t rbusMessage_AddPrivateListener(
@@ -142,6 +155,7 @@ rbusError_t rbusMessage_AddPrivateListener(
     ctx->userData = userData;
     ctx->connection = myConn;
     ctx->subscriptionId = subscriptionId;
+    ctx->listenerId = subscriptionId;
     RBUS_MESSAGE_MUTEX_LOCK();
     rtVector_PushBack(handle->messageCallbacks, ctx);
 
@@ -175,10 +189,11 @@ rbusError_t rbusMessage_AddListener(
     ctx->userData = userData;
     ctx->connection = con;
     ctx->subscriptionId = subscriptionId;
+    ctx->listenerId = nextListenerId();
     RBUS_MESSAGE_MUTEX_LOCK();
     rtVector_PushBack(handle->messageCallbacks, ctx);
 
-    rtError e = rtConnection_AddListenerWithId(con, expression, subscriptionId, &rtMessage_CallbackHandler, ctx);
+    rtError e = rtConnection_AddListenerWithId(con, expression, ctx->listenerId, &rtMessage_CallbackHandler, ctx);
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -204,10 +219,12 @@ rbusError_t rbusMessage_RemovePrivateListener(
     }
 
     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "%d.%s", subscriptionId, expression);
+    rbusMessageHandlerContext_t key = {0};
+    key.expression = (char*)expression;
+    key.subscriptionId = subscriptionId;
     RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_RemoveItemByCompare(handle->messageCallbacks, rawDataTopic, compareContextExpression, cleanupContext);
-
     rtError e = rtConnection_RemoveListenerWithId(myConn, rawDataTopic, subscriptionId);
+    rtVector_RemoveItemByCompare(handle->messageCallbacks, &key, compareContext, cleanupContext);
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -224,12 +241,18 @@ rbusError_t rbusMessage_RemoveListener(
     uint32_t subscriptionId)
 {
     VERIFY_NULL(handle);
-    rtConnection con = ((struct _rbusHandle*)handle)->m_connection;
 
+    rbusMessageHandlerContext_t key = {0};
+    key.expression = (char*)expression;
+    key.subscriptionId = subscriptionId;
+    rtError e = RT_ERROR_INVALID_ARG;
     RBUS_MESSAGE_MUTEX_LOCK();
-    rtVector_RemoveItemByCompare(handle->messageCallbacks, expression, compareContextExpression, cleanupContext);
-
-    rtError e = rtConnection_RemoveListenerWithId(con, expression, subscriptionId);
+    rbusMessageHandlerContext_t* ctx = rtVector_Find(handle->messageCallbacks, &key, compareContext);
+    if (ctx)
+    {
+        e = rtConnection_RemoveListenerWithId(ctx->connection, expression, ctx->listenerId);
+        rtVector_RemoveItem(handle->messageCallbacks, ctx, cleanupContext);
+    }
     RBUS_MESSAGE_MUTEX_UNLOCK();
     if (e != RT_OK)
     {
@@ -251,8 +274,8 @@ rbusError_t rbusMessage_RemoveAllListeners(
     for (i = 0, n = rtVector_Size(handle->messageCallbacks); i < n; ++i)
     {
         rbusMessageHandlerContext_t* ctx = rtVector_At(handle->messageCallbacks, i);
-        VERIFY_NULL(ctx);
-        rtError e = rtConnection_RemoveListenerWithId(con, ctx->expression, ctx->subscriptionId);
+        /*the listeners of a direct connection go with that connection*/
+        rtError e = (ctx->connection == con) ? rtConnection_RemoveListenerWithId(con, ctx->expression, ctx->listenerId) : RT_OK;
         if (e != RT_OK)
         {
             RBUSLOG_WARN("rbusMessage_RemoveAllListener %s :%s", ctx->expression, rtStrError(e));
-- 
2.43.0


From 976e913f9e4e81bc0fecbc507a11bf2cc621ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 41/65] fix: session numbers are not given out again and a
 mistyped number does not end the manager

---
 src/session_manager/session_manager.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/session_manager/session_manager.c b/src/session_manager/session_manager.c
index 936d3d9..eebb9be 100644
--- a/src/session_manager/session_manager.c
+++ b/src/session_manager/session_manager.c
@@ -60,8 +60,7 @@ static rbusError_t sessionManager_methodHandler(rbusHandle_t handle,
     {
         if (0 == g_current_session_id)
         {
-            g_current_session_id = 1;
-            ++g_counter;
+            g_current_session_id = ++g_counter;
             printf("Creating new session %d\n", g_current_session_id);
             rbusValue_t return_value, sessionid_value;
             rbusValue_Init(&return_value);
@@ -110,10 +109,13 @@ static rbusError_t sessionManager_methodHandler(rbusHandle_t handle,
     else if (strcmp(methodName, RBUS_SMGR_METHOD_END_SESSION) == 0)
     {
         rbusProperty_t prop = NULL;
-        int sessionid = 0;
+        rbusValue_t value = NULL;
+        int32_t sessionid = 0;
         int result = 0;
         prop = rbusObject_GetProperties(inParams);
-        if ((prop) && (sessionid = rbusValue_GetInt32(rbusProperty_GetValue(prop))))
+        if (prop)
+            value = rbusProperty_GetValue(prop);
+        if ((value) && (rbusValue_GetInt32Ex(value, &sessionid) == RBUS_VALUE_ERROR_SUCCESS) && (sessionid))
         {
             if(sessionid == g_current_session_id)
             {
-- 
2.43.0


From b9601437347e4c606aea7a1e893c25c19c3c0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 42/65] fix: the list of handles is locked and an unknown
 component id finds no handle

An event for a closed handle was delivered to another handle of the process.
---
 src/rbus/rbus_handle.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 3025718..eca8a71 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -23,6 +23,10 @@
 #include <unistd.h>
 #include <stdlib.h>
 static rtVector gHandleList = NULL;
+/*the list is searched by every call, also while another thread opens or closes a handle*/
+static pthread_mutex_t gHandleListMutex = PTHREAD_MUTEX_INITIALIZER;
+#define LIST_LOCK() pthread_mutex_lock(&gHandleListMutex)
+#define LIST_UNLOCK() pthread_mutex_unlock(&gHandleListMutex)
 
 #define VERIFY_NULL(T,R) if(NULL == T){ RBUSLOG_ERROR(#T" is NULL"); R; }
 #define BUF_LEN 128
@@ -54,41 +58,44 @@ bool rbusHandleList_IsValidHandle(struct _rbusHandle* handle)
         return false;
     }
     int i;
+    bool found = false;
+    LIST_LOCK();
     if(gHandleList)
     {
         int len = rtVector_Size(gHandleList);
-        for(i = 0; i < len; i++)
+        for(i = 0; i < len && !found; i++)
         {
             tmphandle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(tmphandle == handle)
-            {
-                return true;
-            }
+            found = (tmphandle == handle);
         }
     }
-    return false;
+    LIST_UNLOCK();
+    return found;
 }
 
 void rbusHandleList_Add(struct _rbusHandle* handle)
 {
     VERIFY_NULL(handle,return);
+    LIST_LOCK();
     if(!gHandleList)
         rtVector_Create(&gHandleList);
     RBUSLOG_DEBUG("adding %p", handle);
     rtVector_PushBack(gHandleList, handle);
+    LIST_UNLOCK();
 }
 
 void rbusHandleList_Remove(struct _rbusHandle* handle)
 {
     VERIFY_NULL(handle,return);
     RBUSLOG_DEBUG("removing %p", handle);
+    LIST_LOCK();
     rtVector_RemoveItem(gHandleList, handle, rtVector_Cleanup_Free);
     if(rtVector_Size(gHandleList) == 0)
     {
         rtVector_Destroy(gHandleList, NULL);
         gHandleList = NULL;
-        return;
     }
+    LIST_UNLOCK();
 }
 
 bool rbusHandleList_IsEmpty()
@@ -133,18 +140,21 @@ struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
     size_t i;
     size_t len;
     struct _rbusHandle* handle = NULL;
+    LIST_LOCK();
     if(gHandleList)
     {
         len = rtVector_Size(gHandleList);
         for(i = 0; i < len; i++)
         {
-            handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(handle->componentId == componentId)
+            struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
+            if(tmp->componentId == componentId)
             {
+                handle = tmp;
                 break;
             }
         }
     }
+    LIST_UNLOCK();
     return handle;
 }
 
@@ -154,6 +164,7 @@ struct _rbusHandle* rbusHandleList_GetByName(char const* componentName)
     size_t len;
     struct _rbusHandle* handle = NULL;
     VERIFY_NULL(componentName,return NULL);
+    LIST_LOCK();
     if(gHandleList)
     {
         len = rtVector_Size(gHandleList);
@@ -167,6 +178,7 @@ struct _rbusHandle* rbusHandleList_GetByName(char const* componentName)
             }
         }
     }
+    LIST_UNLOCK();
     return handle;
 }
 
-- 
2.43.0


From 9dab5a3a7230e20975b99440a92300588d183573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 43/65] fix: raw data reaches subscriptions by alias, row
 number or wildcard once each

and a broken subscription record doesn't stop or crash the publication.
---
 src/rbus/rbus.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 7da5a3e..97ab33e 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6062,6 +6062,25 @@ bool rbusEvent_IsSubscriptionExist(
     return ret;
 }
 
+/* Raw data goes out once for each of the names it was subscribed by: the name of the element, by row number, by alias or by wildcard. */
+static bool isFirstRawSubscriptionByName(elementNode* el, rbusSubscription_t* subscription)
+{
+    rtListItem listItem;
+    rbusSubscription_t* other;
+
+    rtList_GetFront(el->subscriptions, &listItem);
+    while(listItem)
+    {
+        rtListItem_GetData(listItem, (void**)&other);
+        if(other == subscription)
+            break;
+        if(other && other->rawData && other->eventName && !strcmp(other->eventName, subscription->eventName))
+            return false;
+        rtListItem_GetNext(listItem, &listItem);
+    }
+    return true;
+}
+
 rbusError_t  rbusEvent_PublishRawData(
   rbusHandle_t          handle,
   rbusEventRawData_t*    eventData)
@@ -6107,9 +6126,17 @@ rbusError_t  rbusEvent_PublishRawData(
             if(rc == RBUS_ERROR_SUCCESS)
                 rc = RBUS_ERROR_BUS_ERROR;
             rtListItem_GetNext(listItem, &listItem);
+            continue;
         }
         if(subscription->rawData)
+        {
             err = rbuscore_publishDirectSubscriberEvent(subscription->eventName, subscription->listener, eventData->rawData, eventData->rawDataLen, subscription->subscriptionId, subscription->rawData);
+            if(strcmp(subscription->eventName, eventData->name) && isFirstRawSubscriptionByName(el, subscription))
+            {
+                snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subscription->eventName);
+                rbus_sendData(eventData->rawData, eventData->rawDataLen, rawDataTopic);
+            }
+        }
         rc = rbusCoreError_to_rbusError(err);
         rtListItem_GetNext(listItem, &listItem);
     }
@@ -6209,6 +6236,7 @@ rbusError_t  rbusEvent_Publish(
             if(errOut == RBUSCORE_SUCCESS)
                 errOut = RBUSCORE_ERROR_GENERAL;
             rtListItem_GetNext(listItem, &listItem);
+            continue;
         }
 
         if(eventData->type == RBUS_EVENT_VALUE_CHANGED)
-- 
2.43.0


From d268ad4f56a40d6e054296f10201998b7f24fbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 44/65] fix: calls with a closed handle or without a table name
 report it instead of using freed memory

---
 src/rbus/rbus.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 97ab33e..4d2e4d8 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -325,7 +325,7 @@ static rbusEventSubscriptionInternal_t* rbusEventSubscription_find(rtVector even
 
 rbusError_t rbusHandle_ConfigTimeoutValues(rbusHandle_t handle, rbusTimeoutValues_t timeoutValues)
 {
-    VERIFY_NULL(handle);
+    VERIFY_HANDLE(handle);
     rbusHandle_ConfigSetTimeout(handle, timeoutValues.setTimeout);
     rbusHandle_ConfigGetTimeout(handle, timeoutValues.getTimeout);
     rbusHandle_ConfigSetMultiTimeout(handle, timeoutValues.setMultiTimeout);
@@ -3237,7 +3237,8 @@ rbusError_t rbus_openDirect(rbusHandle_t handle, rbusHandle_t* myDirectHandle, c
     rbusCoreError_t err = RBUSCORE_SUCCESS;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    if ((handle) && (myDirectHandle) && (pParameterName))
+    VERIFY_HANDLE(handle);
+    if ((myDirectHandle) && (pParameterName))
     {
         if (rbuscore_FindClientPrivateConnection(pParameterName))
         {
@@ -3794,11 +3795,11 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
     int i;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
 
-    VERIFY_NULL(handleInfo);
     VERIFY_NULL(pParamNames);
     VERIFY_NULL(numValues);
     VERIFY_NULL(retProperties);
     VERIFY_ZERO(paramCount);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4637,8 +4638,8 @@ rbusError_t rbusTable_addRow(
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
     rbusLegacyReturn_t legacyRetCode = RBUS_LEGACY_ERR_FAILURE;
 
-    VERIFY_NULL(handle);
     VERIFY_NULL(tableName);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4715,8 +4716,8 @@ rbusError_t rbusTable_removeRow(
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
     rbusLegacyReturn_t legacyRetCode = RBUS_LEGACY_ERR_FAILURE;
 
-    VERIFY_NULL(handle);
     VERIFY_NULL(rowName);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4777,8 +4778,8 @@ rbusError_t rbusTable_registerRow(
     char name[RBUS_MAX_NAME_LENGTH] = {0};
     int rc;
 
-    VERIFY_NULL(handleInfo);
     VERIFY_NULL(tableName);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4818,8 +4819,8 @@ rbusError_t rbusTable_unregisterRow(
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    VERIFY_NULL(handleInfo);
     VERIFY_NULL(rowName);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4846,7 +4847,9 @@ rbusError_t rbusTable_getRowNames(
     rbusMessage request, response;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*) handle;
 
-    VERIFY_NULL(handle);
+    VERIFY_NULL(tableName);
+    VERIFY_NULL(rowNames);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -4991,7 +4994,7 @@ rbusError_t rbusElementInfo_get(
     VERIFY_NULL(elemInfo);
     *elemInfo = NULL;
 
-    VERIFY_NULL(handleInfo);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -5496,9 +5499,9 @@ rbusError_t  rbusEvent_SubscribeRawData(
     rbusEventSubscriptionInternal_t* subInternal = NULL;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    VERIFY_NULL(handle);
     VERIFY_NULL(eventName);
     VERIFY_NULL(handler);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -5764,9 +5767,9 @@ rbusError_t rbusEvent_SubscribeExRawData(
     rbusEventSubscriptionInternal_t* subInternal;
     int i;
 
-    VERIFY_NULL(handle);
     VERIFY_NULL(subscription);
     VERIFY_ZERO(numSubscriptions);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -5850,10 +5853,10 @@ rbusError_t rbusEvent_SubscribeExAsync(
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     int i;
 
-    VERIFY_NULL(handle);
     VERIFY_NULL(subscription);
     VERIFY_NULL(subscribeHandler);
     VERIFY_ZERO(numSubscriptions);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -5891,9 +5894,9 @@ rbusError_t rbusEvent_UnsubscribeExRawData(
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    VERIFY_NULL(handle);
     VERIFY_NULL(subscription);
     VERIFY_ZERO(numSubscriptions);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -5971,9 +5974,9 @@ rbusError_t rbusEvent_UnsubscribeEx(
     rbusError_t errorcode = RBUS_ERROR_SUCCESS;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    VERIFY_NULL(handle);
     VERIFY_NULL(subscription);
     VERIFY_ZERO(numSubscriptions);
+    VERIFY_HANDLE(handle);
     char topic[RBUS_MAX_NAME_LENGTH] = {0};
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
@@ -6032,6 +6035,11 @@ bool rbusEvent_IsSubscriptionExist(
         RBUSLOG_ERROR("failed, hanlder is NULL");
         return false;
     }
+    if (!rbusHandleList_IsValidHandle(handle))
+    {
+        RBUSLOG_ERROR("handle is invalid");
+        return false;
+    }
 
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusEventSubscriptionInternal_t* subInternal = NULL;
@@ -6092,8 +6100,8 @@ rbusError_t  rbusEvent_PublishRawData(
     rbusCoreError_t err = RBUSCORE_SUCCESS;
     char rawDataTopic[RBUS_MAX_NAME_LENGTH] = {0};
 
-    VERIFY_NULL(handle);
     VERIFY_NULL(eventData);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
@@ -6183,8 +6191,8 @@ rbusError_t  rbusEvent_Publish(
     rbusValue_t newVal = NULL;
     rbusValue_t oldVal = NULL;
 
-    VERIFY_NULL(handle);
     VERIFY_NULL(eventData);
+    VERIFY_HANDLE(handle);
 
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
-- 
2.43.0


From 6310c2c62072720f3cd5a53af5973f776159302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 45/65] fix: removing a timed out request from the pending
 requests takes the lock, and a response which came just in time is used

---
 src/rtmessage/rtConnection.c | 43 ++++++++++++++++++------------------
 src/rtmessage/rtSemaphore.c  | 12 ++++++----
 2 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 142fba0..bcbe99d 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1002,12 +1002,12 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
 
     rtList_PushFront(con->pending_requests_list, (void*)&queue_entry, &listItem);
     err = rtConnection_SendInternal(con, p, n, topic, con->inbox_name, rtMessageFlags_Request | flags, sequence_number, 0, 0, 0);
+    pthread_mutex_unlock(&con->mutex);
     if (err != RT_OK)
     {
       ret = err;
       goto dequeue_and_continue;
     }
-    pthread_mutex_unlock(&con->mutex);
 
     if(tid != con->read_tid)
     {
@@ -1060,35 +1060,34 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         }
       } while(RT_OK == err);
     }
-    if(RT_OK == ret)
-    {
-      /*Sem posted*/
-      pthread_mutex_lock(&con->mutex);
 
-      if(queue_entry.response)
-      {
-        if(queue_entry.response->header.flags & rtMessageFlags_Undeliverable)
-        {
-          rtMessageInfo_Release(queue_entry.response);
+dequeue_and_continue:
+    /*the reader thread searches the list and sets the response under this lock*/
+    pthread_mutex_lock(&con->mutex);
+    rtList_RemoveItem(con->pending_requests_list, listItem, NULL);
 
-          ret = RT_OBJECT_NO_LONGER_AVAILABLE;
-        }
-        else
-        {
-          /*caller must call rtMessageInfo_Release on the response*/
+    if(queue_entry.response)
+    {
+      /*it may also have come just after the time was up*/
+      if(queue_entry.response->header.flags & rtMessageFlags_Undeliverable)
+      {
+        rtMessageInfo_Release(queue_entry.response);
 
-          *res = queue_entry.response; 
-        }
+        ret = RT_OBJECT_NO_LONGER_AVAILABLE;
       }
       else
       {
-        /*For some reason, we unblocked, but there's no data.*/
-        ret = RT_ERROR;
+        /*caller must call rtMessageInfo_Release on the response*/
+
+        *res = queue_entry.response;
+        ret = RT_OK;
       }
     }
-
-dequeue_and_continue:
-    rtList_RemoveItem(con->pending_requests_list, listItem, NULL);
+    else if(RT_OK == ret)
+    {
+      /*For some reason, we unblocked, but there's no data.*/
+      ret = RT_ERROR;
+    }
     pthread_mutex_unlock(&con->mutex);
     rtSemaphore_Destroy(queue_entry.sem);
 
diff --git a/src/rtmessage/rtSemaphore.c b/src/rtmessage/rtSemaphore.c
index 45d64d4..5b56a2f 100644
--- a/src/rtmessage/rtSemaphore.c
+++ b/src/rtmessage/rtSemaphore.c
@@ -106,10 +106,14 @@ rtError rtSemaphore_TimedWait(rtSemaphore sem, struct timespec* t)
     ERROR_CHECK(pthread_mutex_unlock(&sem->m));
     return RT_OK;
   }
-  if(t)
-    err = pthread_cond_timedwait(&sem->c, &sem->m, t);
-  else
-    err = pthread_cond_wait(&sem->c, &sem->m);
+  do
+  {
+    if(t)
+      err = pthread_cond_timedwait(&sem->c, &sem->m, t);
+    else
+      err = pthread_cond_wait(&sem->c, &sem->m);
+  }
+  while(err == 0 && sem->v == 0);
   if(err == 0)
   {
     if(sem->v > 0)
-- 
2.43.0


From ec5ea3b2db52a86677e5740ef8c61b249cdf0bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 46/65] fix: events which arrive while the broker connection is
 closed don't use freed subscriptions

---
 src/core/rbuscore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 5958597..da5874d 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -416,6 +416,7 @@ static void perform_cleanup()
         lock();
     }
     rtVector_Destroy(g_event_subscriptions_for_client, client_subscription_destroy);
+    g_event_subscriptions_for_client = NULL; /*events can come until the connection is destroyed*/
 
     unlock();
 }
@@ -1501,7 +1502,7 @@ static void master_event_callback(rtMessageHeader const* hdr, uint8_t const* dat
     }
 
     lock();
-    subs_len = rtVector_Size(g_event_subscriptions_for_client);
+    subs_len = g_event_subscriptions_for_client ? rtVector_Size(g_event_subscriptions_for_client) : 0;
     for(i = 0; i < subs_len; ++i)
     {
         client_subscription_t sub = rtVector_At(g_event_subscriptions_for_client, i);
-- 
2.43.0


From b0207ea2a0663acdd5ee7ea43a51ec49c1819952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 47/65] fix: closing the last handle while an event arrives
 doesn't deadlock

---
 src/rbus/rbus.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 4d2e4d8..b97fb78 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -122,6 +122,8 @@ typedef struct _rbusEventSubscriptionInternal
 extern char* __progname;
 //******************************* GLOBALS *****************************************//
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
+/*held while the broker connection is opened or closed. gMutex can't be, as closing waits for the callback thread, which takes gMutex*/
+static pthread_mutex_t gConnectionMutex = PTHREAD_MUTEX_INITIALIZER;
 
 //********************************************************************************//
 
@@ -3112,6 +3114,7 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
 
     RBUSLOG_INFO("rbus open for component: %s", componentName);
 
+    pthread_mutex_lock(&gConnectionMutex);
     LockMutex();
 
     /*
@@ -3123,8 +3126,10 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     if(tmpHandle)
     {
         UnlockMutex();
+        pthread_mutex_unlock(&gConnectionMutex);
         RBUSLOG_WARN("(%s): closing previously opened component with the same name", componentName);
         rbus_close(tmpHandle);
+        pthread_mutex_lock(&gConnectionMutex);
         LockMutex();
     }
 
@@ -3183,6 +3188,7 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     rbusHandleList_Add(tmpHandle);
 
     UnlockMutex();
+    pthread_mutex_unlock(&gConnectionMutex);
 
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), tmpHandle->componentId);
     FILE *fd  =  fopen(filename, "w");
@@ -3216,6 +3222,7 @@ exit_error1:
     }
 
     UnlockMutex();
+    pthread_mutex_unlock(&gConnectionMutex);
 
     if(tmpHandle)
         rt_free(tmpHandle);
@@ -3328,6 +3335,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
+    pthread_mutex_lock(&gConnectionMutex);
     LockMutex();
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
@@ -3417,7 +3425,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
         _rbus_open_pre_initialize(false);
     }
 
-    UnlockMutex();
+    pthread_mutex_unlock(&gConnectionMutex);
 
     if(ret == RBUS_ERROR_SUCCESS)
         RBUSLOG_INFO("rbus close (%s) success", componentName);
-- 
2.43.0


From b0d6f8c52c1d9785cdb4e0fd657158d1d35f7660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 48/65] fix: a cancelled subscription's handler isn't called
 after subscribing again

---
 src/rbus/rbus.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index b97fb78..84f1fd1 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3403,6 +3403,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
     ERROR_CHECK(pthread_mutex_destroy(&handleInfo->handle_eventSubsMutex));
     ERROR_CHECK(pthread_mutex_destroy(&handleInfo->handle_subsMutex));
     rbusHandleList_Remove(handleInfo);
+    UnlockMutex();
 
     if(rbusHandleList_IsEmpty())
     {
@@ -5255,6 +5256,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     int providerError = RBUS_ERROR_SUCCESS;
     rbusEventSubscription_t* sub;
     rbusEventSubscriptionInternal_t* subInternal = NULL;
+    rbusEventSubscriptionInternal_t* dirtySub = NULL;
     rbusMessage payload = NULL;
     rbusMessage response = NULL;
     int destNotFoundSleep = 1000; /*miliseconds*/
@@ -5263,10 +5265,11 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
     {
-        /*Allow only for dirty subscription*/
+        /*Allow only for dirty subscription. It was canceled, so its handler isn't called any more*/
         if (subInternal->dirty)
         {
-            subInternal->dirty = false;
+            rtVector_RemoveItem(handleInfo->eventSubs, subInternal, NULL);
+            dirtySub = subInternal;
         }
         else
         {
@@ -5313,6 +5316,8 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         rbusAsyncSubscribe_AddSubscription(sub, payload);
 
         rbusMessage_Release(payload);
+        if(dirtySub)
+            rbusEventSubscriptionInternal_free(dirtySub);
         return RBUS_ERROR_SUCCESS;
     }
 
@@ -5354,6 +5359,21 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         rbusMessage_Release(payload);
     }
 
+    if(dirtySub)
+    {
+        if(coreerr == RBUSCORE_SUCCESS || providerError == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST)
+        {
+            rbusEventSubscriptionInternal_free(dirtySub);
+        }
+        else
+        {
+            /*the provider may still have the canceled one*/
+            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+            rtVector_PushBack(handleInfo->eventSubs, dirtySub);
+            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        }
+    }
+
     if(coreerr == RBUSCORE_SUCCESS)
     {
         int initial_value = 0;
@@ -5390,16 +5410,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         {
             RBUSLOG_DEBUG("%s all subscribe retries failed because no provider could be found", eventName);
             RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", eventName);/*RDKB-33658-AC7*/
-            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
-            {
-                subInternal->dirty = true;
-            }
-            else
-            {
-                rbusEventSubscription_free(sub);
-            }
-            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+            rbusEventSubscription_free(sub);
             return RBUS_ERROR_TIMEOUT;
         }
         else if(providerError != RBUS_ERROR_SUCCESS)
-- 
2.43.0


From 82da26f2870695437aa03b06bff51f7132ca1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:04 +0000
Subject: [PATCH 49/65] fix: name the event, not the connection's topic, to raw
 data handlers, and listen again with the subscriber's own handle after a
 direct connection is closed

---
 src/rbus/rbus.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 84f1fd1..4aac37f 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -394,10 +394,10 @@ rbusError_t rbusCloseDirect_SubRemove(rbusHandle_t handle, rtVector eventSubs, c
             {
                 RBUSLOG_WARN("rbusMessage_RemovePrivateListener failed err:%d", errorcode);
             }
-            handle->m_connection = handle->m_connectionParent; /* changed the handle m_connection of direct connection to use normal m_connection and used the same to add the rawdatatopic for normal connection*/
             memset(rawDataTopic, '\0', strlen(rawDataTopic));
             snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
-            errorcode = rbusMessage_AddListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
+            /*listen on the normal connection of the subscriber's handle, which outlives the handle of the direct connection*/
+            errorcode = rbusMessage_AddListener(subInternal->sub->handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
             if(errorcode != RBUS_ERROR_SUCCESS)
             {
                 RBUSLOG_ERROR("rbusMessage_AddListener failed err: %d", errorcode);
@@ -5470,6 +5470,8 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
         rbusEventSubscription_t *ptmp = (rbusEventSubscription_t *)userData;
         if (ptmp)
         {
+            /*a message's topic is that of the connection it came on*/
+            event.name = ptmp->eventName;
             HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
             rbusEventSubscriptionInternal_t *subInternal = rbusEventSubscription_find(handleInfo->eventSubs,
                     ptmp->eventName, ptmp->filter, ptmp->interval, ptmp->duration, true);
-- 
2.43.0


From b1d8463afda3d6d35ba1696163ac9740074fc9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:04 +0000
Subject: [PATCH 50/65] fix: cancel the thread of a direct connection once, not
 once per element

---
 src/core/rbuscore.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index da5874d..09c97f9 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -98,6 +98,7 @@ typedef struct _server_object
 /////////////
 extern char* __progname;
 static void _freePrivateServer(void* p);
+static void _rbuscore_destroy_serverPrivate_connections();
 static void _rbuscore_directconnection_load_from_cache();
 static void _rbuscore_destroy_clientPrivate_connections();
 const rtPrivateClientInfo* _rbuscore_find_server_privateconnection(const char *pParameterName, const char *pConsumerName);
@@ -392,7 +393,7 @@ static void perform_cleanup()
 
     rtVector_Destroy(g_server_objects, server_object_destroy);
 
-    rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
+    _rbuscore_destroy_serverPrivate_connections();
     _rbuscore_destroy_clientPrivate_connections();
     rtVector_Destroy(gListOfClientDirectDMLs, rtVector_Cleanup_Free);
 
@@ -2459,6 +2460,26 @@ static void _freePrivateServer(void* p)
     free(pTmp);
 }
 
+static void _rbuscore_destroy_serverPrivate_connections()
+{
+    size_t i, i2;
+    size_t sz = rtVector_Size(gListOfServerDirectDMLs);
+
+    /* the DMLs of one consumer share a thread, which must be cancelled only once */
+    for(i = 0; i < sz; ++i)
+    {
+        rbusServerDMLList_t* first = rtVector_At(gListOfServerDirectDMLs, i);
+        for(i2 = i + 1; i2 < sz && first->m_pid; ++i2)
+        {
+            rbusServerDMLList_t* other = rtVector_At(gListOfServerDirectDMLs, i2);
+            if(other->m_pid == first->m_pid)
+                other->m_pid = 0;
+        }
+    }
+
+    rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
+}
+
 #define RBUS_DIRECT_FILE_CACHE "/tmp/.rbus_%s_direct.cache"
 #define RBUS_DIRECT_ROW_CACHE_LENGTH 512
 static void _rbuscore_directconnection_save_to_cache()
-- 
2.43.0


From 7e1a36f239472da40a675db303b50fd3ddd7a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:04 +0000
Subject: [PATCH 51/65] fix: hold the direct connection lock while its list is
 searched and changed

---
 src/core/rbuscore.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 09c97f9..41cc007 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -2652,7 +2652,6 @@ rbusServerDMLList_t* rbuscore_FindServerPrivateClient (const char *pParameterNam
                 if ((0 == strncmp(pDmlObj->m_privateDML, pParameterName, MAX_OBJECT_NAME_LENGTH)) &&
                     (0 == strncmp(pDmlObj->m_consumerName, pConsumerName, MAX_OBJECT_NAME_LENGTH)))
                 {
-                    directServerUnlock();
                     return pDmlObj;
                 }
             }
@@ -2681,15 +2680,15 @@ rbusCoreError_t rbuscore_updatePrivateListener(const char* pConsumerName, const
     rbusServerDMLList_t *pObj = NULL;
     if (pConsumerName && pDMLName)
     {
+        directServerLock();
         pObj = rbuscore_FindServerPrivateClient (pDMLName, pConsumerName);
         if (pObj)
         {
-            directServerLock();
             rtVector_RemoveItem(gListOfServerDirectDMLs, pObj, rtVector_Cleanup_Free);
             _rbuscore_directconnection_save_to_cache();
-            directServerUnlock();
         }
-        else
+        directServerUnlock();
+        if (!pObj)
         {
             RBUSCORELOG_WARN("No Direct Connection for this DML(%s) exist for this consumer(%s)", pDMLName, pConsumerName);
             ret = RBUSCORE_ERROR_INVALID_PARAM;
-- 
2.43.0


From dacf5a0c70499e2b3c419b29f96fc7ff7a39f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:04 +0000
Subject: [PATCH 52/65] fix: closing direct connections: do not loop for ever
 with two providers, forget the connection whatever the provider answers

---
 src/core/rbuscore.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 41cc007..63e1202 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -2877,9 +2877,9 @@ static void _rbuscore_destroy_clientPrivate_connections()
         pTmpProvider = strdup(obj->m_providerName);
         rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
 
-        while(rtVector_Size(gListOfClientDirectDMLs) > 0)
+        while((obj = rtVector_Find(gListOfClientDirectDMLs, pTmpProvider, _findClientPrivateConnection)) != NULL)
         {
-            rtVector_RemoveItemByCompare(gListOfClientDirectDMLs, pTmpProvider, _findClientPrivateConnection, rtVector_Cleanup_Free);
+            rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
         }
 
         free(pTmpProvider);
@@ -3072,17 +3072,15 @@ rbusCoreError_t rbuscore_closePrivateConnection(const char *pParameterName)
         {
             rbusMessage_GetInt32(response, (int32_t*)&err);
             RBUSCORELOG_DEBUG("Response from the remote method is [%d]!", err);
-
-            if (RBUSCORE_SUCCESS == err)
-            {
-                connection = obj->m_privConn;
-                memcpy(providerName, obj->m_providerName, MAX_OBJECT_NAME_LENGTH);
-                providerName[MAX_OBJECT_NAME_LENGTH] = '\0';
-                rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
-            }
             rbusMessage_Release(response);
         }
 
+        /* The connection for this DML is over, whatever the provider says (it may not have the DML anymore) */
+        connection = obj->m_privConn;
+        memcpy(providerName, obj->m_providerName, MAX_OBJECT_NAME_LENGTH);
+        providerName[MAX_OBJECT_NAME_LENGTH] = '\0';
+        rtVector_RemoveItem(gListOfClientDirectDMLs, obj, rtVector_Cleanup_Free);
+
         obj = rtVector_Find(gListOfClientDirectDMLs, providerName, _findClientPrivateConnection);
         if (!obj)
         {
-- 
2.43.0


From 294d96c931a1fc0378eef017fcc88737da238bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:04 +0000
Subject: [PATCH 53/65] fix: do not stop the reader of a connection while a
 send is under way (both sides and the broker ended up waiting for each other)

---
 src/rtmessage/rtConnection.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index bcbe99d..ab1299b 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -111,6 +111,7 @@ struct _rtConnection
   char                    inbox_name[RTMSG_HEADER_MAX_TOPIC_LENGTH];
   struct _rtListener      listeners[RTMSG_LISTENERS_MAX];
   pthread_mutex_t         mutex;
+  pthread_mutex_t         send_mutex; /*the reader must not wait for a send to finish, so this is not the mutex above*/
   rtList                  pending_requests_list;
   rtList                  callback_message_list;
   rtMessageCallback       default_callback;
@@ -532,6 +533,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   pthread_mutexattr_init(&mutex_attribute);
   pthread_mutexattr_settype(&mutex_attribute, PTHREAD_MUTEX_ERRORCHECK);
   if (0 != pthread_mutex_init(&c->mutex, &mutex_attribute) ||
+      0 != pthread_mutex_init(&c->send_mutex, &mutex_attribute) ||
       0 != pthread_mutex_init(&c->callback_message_mutex, &mutex_attribute) ||
       0 != pthread_mutex_init(&c->reconnect_mutex, &mutex_attribute))
   {
@@ -754,6 +756,7 @@ rtConnection_Destroy(rtConnection con)
     }
 
     pthread_mutex_destroy(&con->mutex);
+    pthread_mutex_destroy(&con->send_mutex);
     pthread_mutex_destroy(&con->callback_message_mutex);
     pthread_cond_destroy(&con->callback_message_cond);
     pthread_mutex_destroy(&con->reconnect_mutex);
@@ -787,14 +790,14 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
     uint32_t sequence_number;
     rtMessage_ToByteArrayWithSize(msg, &p, DEFAULT_SEND_BUFFER_SIZE, &n);  /*FIXME unification is this needed ? rtMessage_FreeByteArray(p);*/
 
-    pthread_mutex_lock(&con->mutex);
+    pthread_mutex_lock(&con->send_mutex);
 #ifdef C11_ATOMICS_SUPPORTED
     sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
 #else
     sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
 #endif
     err = rtConnection_SendInternal(con, p, n, topic, listener, 0, sequence_number, 0, 0, 0);
-    pthread_mutex_unlock(&con->mutex);
+    pthread_mutex_unlock(&con->send_mutex);
     rtMessage_FreeByteArray(p);
 
     if(err == RT_NO_CONNECTION)
@@ -847,10 +850,10 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
     uint32_t n;
 
     rtMessage_ToByteArrayWithSize(res, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
-    pthread_mutex_lock(&con->mutex);
+    pthread_mutex_lock(&con->send_mutex);
   //TODO: should we send response on reconnect ?
     err = rtConnection_SendInternal(con, p, n, request_hdr->reply_topic, request_hdr->topic, rtMessageFlags_Response, request_hdr->sequence_number, 0, 0, 0);
-    pthread_mutex_unlock(&con->mutex);
+    pthread_mutex_unlock(&con->send_mutex);
     rtMessage_FreeByteArray(p);
 
     if(err == RT_NO_CONNECTION)
@@ -894,9 +897,9 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
     sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
 #endif
 
-    pthread_mutex_lock(&con->mutex);
+    pthread_mutex_lock(&con->send_mutex);
     err = rtConnection_SendInternal(con, p, n, topic, listener, rtMessageFlags_RawBinary, sequence_number, 0, 0, 0);
-    pthread_mutex_unlock(&con->mutex);
+    pthread_mutex_unlock(&con->send_mutex);
 
     if(err == RT_NO_CONNECTION)
     {
@@ -957,7 +960,7 @@ rtConnection_SendBinaryResponse(rtConnection con, rtMessageHeader const* request
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  pthread_mutex_lock(&con->mutex);
+  pthread_mutex_lock(&con->send_mutex);
 #ifdef MSG_ROUNDTRIP_TIME
   err = rtConnection_SendInternal(con, p, n, request_hdr->reply_topic, request_hdr->topic,
     rtMessageFlags_Response|rtMessageFlags_RawBinary, request_hdr->sequence_number, request_hdr->T1, request_hdr->T2, request_hdr->T3);
@@ -966,7 +969,7 @@ rtConnection_SendBinaryResponse(rtConnection con, rtMessageHeader const* request
     rtMessageFlags_Response|rtMessageFlags_RawBinary, request_hdr->sequence_number, 0, 0, 0);
 #endif
 
-  pthread_mutex_unlock(&con->mutex);
+  pthread_mutex_unlock(&con->send_mutex);
   return err;
 }
 
@@ -1001,8 +1004,10 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
     queue_entry.response = NULL;
 
     rtList_PushFront(con->pending_requests_list, (void*)&queue_entry, &listItem);
-    err = rtConnection_SendInternal(con, p, n, topic, con->inbox_name, rtMessageFlags_Request | flags, sequence_number, 0, 0, 0);
     pthread_mutex_unlock(&con->mutex);
+    pthread_mutex_lock(&con->send_mutex);
+    err = rtConnection_SendInternal(con, p, n, topic, con->inbox_name, rtMessageFlags_Request | flags, sequence_number, 0, 0, 0);
+    pthread_mutex_unlock(&con->send_mutex);
     if (err != RT_OK)
     {
       ret = err;
-- 
2.43.0


From 2d35edaa483c57f042a1ce179c1618628f6eb03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:35 +0000
Subject: [PATCH 54/65] fix: a saved subscription the restarted provider
 refuses is freed once, not again when the provider closes

---
 src/rbus/rbus_subscriptions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index e549b6d..2534ac9 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -791,6 +791,7 @@ void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscrip
             rbusError_t err;
             RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
             rtListItem_GetNext(item, &next);
+            rtListItem_SetData(item, NULL);/*else the list's destructor frees sub again, unless the item is used again before*/
             rtList_RemoveItem(subscriptions->subList, item, NULL);/*remove before calling subscribeHandlerImpl to avoid dupes in cache file*/
             err = subscribeHandlerImpl(handle, true, eventEl, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
             /*TODO figure out what to do if we get an error resubscribing
@@ -839,6 +840,7 @@ void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubsc
                 if(el && rbusSubscriptions_isBelow(el, rowNode))
                 {
                     RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
+                    rtListItem_SetData(item, NULL);/*else the list's destructor frees sub again, unless the item is used again before*/
                     rtList_RemoveItem(subscriptions->subList, item, NULL);
                     err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
                     (void)err;
-- 
2.43.0


From b658f66350a75e944a63ccaeac55a7221b4530c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:35 +0000
Subject: [PATCH 55/65] fix: pending subscriptions end with their handle,
 report once and are not used after they are freed

---
 src/rbus/rbus.c                |  59 +++---
 src/rbus/rbus_asyncsubscribe.c | 318 ++++++++++++++++++++-------------
 src/rbus/rbus_asyncsubscribe.h |   2 +-
 3 files changed, 227 insertions(+), 152 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 4aac37f..8366fe1 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1491,35 +1491,23 @@ static void _client_disconnect_callback_handler(const char * listener)
     UnlockMutex();
 }
 
-void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId)
+/* Records a subscription which was made in the background. Called with the handle's event subscriptions locked. */
+void _subscribe_async_record(rbusEventSubscription_t* subscription, uint32_t subscriptionId)
 {
-    struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
+    struct _rbusHandle* handleInfo = (struct _rbusHandle*)subscription->handle;
+    rbusEventSubscriptionInternal_t* subInternal = NULL;
 
-    subscription->asyncHandler(subscription->handle, subscription, error);
-    if(subscription)
+    if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
+                    subscription->filter, subscription->interval, subscription->duration, false)) != NULL)
     {
-        if(error == RBUS_ERROR_SUCCESS)
-        {
-            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            rbusEventSubscriptionInternal_t* subInternal = NULL;
-            if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
-                            subscription->filter, subscription->interval, subscription->duration, false)) != NULL)
-            {
-                rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
-            }
-            subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
-            subInternal->sub = subscription;
-            subInternal->dirty = false;
-            subInternal->subscriptionId = subscriptionId;
-            subInternal->rawData = false;
-            rtVector_PushBack(handleInfo->eventSubs, subInternal);
-            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-        }
-        else
-        {
-            rbusEventSubscription_free(subscription);
-        }
+        rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
     }
+    subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
+    subInternal->sub = subscription;
+    subInternal->dirty = false;
+    subInternal->subscriptionId = subscriptionId;
+    subInternal->rawData = false;
+    rtVector_PushBack(handleInfo->eventSubs, subInternal);
 }
 
 int _event_callback_handler (char const* objectName, char const* eventName, rbusMessage message, void* userData)
@@ -3335,6 +3323,8 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
+    rbusAsyncSubscribe_CloseHandle(handle);
+
     pthread_mutex_lock(&gConnectionMutex);
     LockMutex();
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
@@ -3384,8 +3374,6 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     rbusValueChange_CloseHandle(handle);//called before freeElementNode below
 
-    rbusAsyncSubscribe_CloseHandle(handle);
-
     if(handleInfo->elementRoot)
     {
         freeElementNode(handleInfo->elementRoot);
@@ -5277,10 +5265,19 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
         }
     }
-    else if (rbusAsyncSubscribe_GetSubscription(handle, eventName, filter))
+    else if (!rawData)
     {
-        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-        return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
+        rbusEventSubscription_t pending = {0};
+        pending.handle = handle;
+        pending.eventName = eventName;
+        pending.filter = filter;
+        pending.interval = interval;
+        pending.duration = duration;
+        if (rbusAsyncSubscribe_GetSubscription(&pending))
+        {
+            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+            return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
+        }
     }
 
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
@@ -5973,6 +5970,8 @@ rbusError_t _rbus_AsyncSubscribe_remove_subscription(
     sub.handle = handle;
     sub.eventName = subscription->eventName;
     sub.filter = subscription->filter;
+    sub.interval = subscription->interval;
+    sub.duration = subscription->duration;
 
     sub_removed = rbusAsyncSubscribe_RemoveSubscription(&sub);
     if(sub_removed)
diff --git a/src/rbus/rbus_asyncsubscribe.c b/src/rbus/rbus_asyncsubscribe.c
index 48d0b75..42d9b40 100644
--- a/src/rbus/rbus_asyncsubscribe.c
+++ b/src/rbus/rbus_asyncsubscribe.c
@@ -37,24 +37,15 @@
   } \
 }
 #define VERIFY_NULL(T) if(NULL == T){ return; }
-#define LOCK() ERROR_CHECK(pthread_mutex_lock(&gRetrier->mutexQueue))
-#define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gRetrier->mutexQueue))
+#define LOCK() ERROR_CHECK(pthread_mutex_lock(&gRetrierMutex))
+#define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gRetrierMutex))
 
 
 /*defined in rbus.c*/
-void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId);
+void _subscribe_async_record(rbusEventSubscription_t* subscription, uint32_t subscriptionId);
 int _event_callback_handler(char const* objectName, char const* eventName, rbusMessage message, void* userData);
 void rbusEventSubscription_free(void* p);
 
-typedef struct AsyncSubscribeRetrier_t
-{
-    rtList items;
-    pthread_cond_t condItemAdded;
-    pthread_mutex_t mutexQueue;
-    int isRunning;
-    pthread_t threadId;
-} AsyncSubscribeRetrier_t;
-
 typedef struct AsyncSubscription_t
 {
     rbusEventSubscription_t* subscription;
@@ -62,9 +53,24 @@ typedef struct AsyncSubscription_t
     int nextWaitTime;
     rtTime_t startTime;
     rtTime_t nextRetryTime;
+    bool sending;   /*its request is being sent, without the lock: nobody else may free it*/
+    bool succeeded; /*and is about to move to the subscriptions of its handle: nobody else may free it*/
+    bool canceled;  /*after it succeeded, and the provider was told*/
 } AsyncSubscription_t;
 
+typedef struct AsyncSubscribeRetrier_t
+{
+    rtList items;
+    pthread_cond_t condItemAdded;
+    pthread_cond_t condItemDone;
+    int isRunning;
+    pthread_t threadId;
+    rbusHandle_t calling; /*the handle whose callback is being called*/
+} AsyncSubscribeRetrier_t;
+
 static AsyncSubscribeRetrier_t* gRetrier = NULL;
+/*protects gRetrier and everything in it. The event subscriptions of a handle are locked before it, never after it*/
+static pthread_mutex_t gRetrierMutex = PTHREAD_MUTEX_INITIALIZER;
 
 static void rbusAsyncSubscribeRetrier_FreeSubscription(void *pitem)
 {
@@ -95,15 +101,17 @@ static int rbusAsyncSubscribeRetrier_CompareSubscription(const void *pitem, cons
     if((!item)||(!sub))
         return 1;
 
-    if (item->subscription && (item->subscription->handle == sub->handle) &&
+    if (!item->canceled && (item->subscription->handle == sub->handle) &&
         strcmp(item->subscription->eventName, sub->eventName) == 0 && 
+        item->subscription->interval == sub->interval &&
+        item->subscription->duration == sub->duration &&
         rbusFilter_Compare(item->subscription->filter, sub->filter) == 0)
         return 0;
     else
         return 1;
 }
 
-static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTime)
+static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(AsyncSubscribeRetrier_t* retrier, rtTime_t* nextSendTime)
 {
     rtTime_t now;
     rtListItem li;
@@ -115,7 +123,7 @@ static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTim
 
     RBUSLOG_DEBUG("now=%s", rtTime_ToString(&now, tbuff));
 
-    rtList_GetFront(gRetrier->items, &li);
+    rtList_GetFront(retrier->items, &li);
 
     if(!li)
     {
@@ -155,34 +163,38 @@ static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTim
     return 0;//meaning there's nothing past due currently
 }
 
-static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
+/* Called with the lock. Sends the requests which are due, each of them without the lock. */
+static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests(AsyncSubscribeRetrier_t* retrier)
 {
     rtListItem li;
-    rtTime_t now;
+    rtTime_t due;
 
     RBUSLOG_DEBUG("%s enter", __FUNCTION__);
 
-    rtTime_Now(&now);
+    rtTime_Now(&due);
 
-    rtList_GetFront(gRetrier->items, &li);
+    rtList_GetFront(retrier->items, &li);
 
-    while(li)
+    while(li && retrier->isRunning)
     {
         AsyncSubscription_t* item = NULL;
 
         rtListItem_GetData(li, (void**)&item);
 
-        if(rtTime_Compare(&item->nextRetryTime, &now) <= 0)
+        if(rtTime_Compare(&item->nextRetryTime, &due) <= 0)
         {
             rbusCoreError_t coreerr;
+            rtTime_t now;
             uint32_t elapsed;
-            int providerError;
+            int timeout = rbusHandle_FetchSubscribeTimeout(item->subscription->handle);
+            int providerError = RBUS_ERROR_SUCCESS;
             rbusMessage response = NULL;
             uint32_t subscriptionId = 0;
 
-
             RBUSLOG_INFO("%s subscribing", item->subscription->eventName);
 
+            item->sending = true;
+            UNLOCK();
             coreerr = rbus_subscribeToEventTimeout(NULL, item->subscription->eventName,
                         _event_callback_handler, item->payload, item->subscription, &providerError, 0, false, &response, false);
 
@@ -190,8 +202,19 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
 
             elapsed = rtTime_Elapsed(&item->startTime, &now);
 
+            if(response)
+            {
+                if(coreerr == RBUSCORE_SUCCESS || providerError == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST)
+                    rbusMessage_GetUInt32(response, &subscriptionId);
+                rbusMessage_Release(response);
+            }
+
+            LOCK();
+            item->sending = false;
+            ERROR_CHECK(pthread_cond_broadcast(&retrier->condItemDone));
+
             if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
-             elapsed < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))    /*if we haven't timeout out yet*/
+             elapsed < (uint32_t)timeout)    /*if we haven't timeout out yet*/
             {
                 if(item->nextWaitTime == 0)
                     item->nextWaitTime = 1000; //miliseconds
@@ -203,7 +226,7 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
                   item->nextWaitTime = RBUS_SUBSCRIBE_MAXWAIT;
 
                 //update nextRetryTime to nextWaitTime miliseconds from now, without exceeding subscribeTimeout
-                if(elapsed + item->nextWaitTime < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))
+                if(elapsed + item->nextWaitTime < (uint32_t)timeout)
                 {
                     rtTime_Later(&now, item->nextWaitTime, &item->nextRetryTime);
                 }
@@ -211,83 +234,106 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
                 {
                     //its possible to have the odd situation, based on how subscribeTimeout/subscribeMaxWait are configured, 
                     //where this final retry happens very close to the previous retry (e.g. ... wait 60, sub, wait 60, sub, wait 1, sub)
-                    rtTime_Later(&item->startTime, rbusHandle_FetchSubscribeTimeout(item->subscription->handle), &item->nextRetryTime);
+                    rtTime_Later(&item->startTime, timeout, &item->nextRetryTime);
                 }
 
                 RBUSLOG_INFO("%s no provider. retry in %d ms with %d left",
                     item->subscription->eventName, 
                     rtTime_Elapsed(&now, &item->nextRetryTime), 
-                    rbusHandle_FetchSubscribeTimeout(item->subscription->handle)- elapsed );
+                    timeout - elapsed );
             }
             else
             {
                 rbusError_t responseErr;
-                rtListItem tmp;
+                rbusEventSubscription_t told;
+                bool canceled;
 
-                if(coreerr == RBUSCORE_SUCCESS)
+                if(coreerr == RBUSCORE_SUCCESS || providerError == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST)
                 {
-                    if(response)
-                        rbusMessage_GetUInt32(response, &subscriptionId);
                     RBUSLOG_INFO("%s subscribe retries succeeded", item->subscription->eventName);
                     responseErr = RBUS_ERROR_SUCCESS;
-                    if(response)
-                        rbusMessage_Release(response);
+                }
+                else if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
+                {
+                    RBUSLOG_INFO("%s all subscribe retries failed and no provider found", item->subscription->eventName);
+                    RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", item->subscription->eventName);/*RDKB-33658-AC7*/
+                    responseErr = RBUS_ERROR_TIMEOUT;
+                }
+                else if(providerError != RBUS_ERROR_SUCCESS)
+                {
+                    RBUSLOG_INFO("%s subscribe retries failed due provider error %d", item->subscription->eventName, providerError);
+                    RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_INVALID_INPUT  %s", item->subscription->eventName);/*RDKB-33658-AC9*/
+                    responseErr = providerError;
                 }
                 else
+                {  
+                    RBUSLOG_INFO("%s subscribe retries failed due to core error %d", item->subscription->eventName, coreerr);
+                    responseErr = RBUS_ERROR_BUS_ERROR;
+                }
+
+                //the callback gets a copy: from here on the subscription may be unsubscribed and freed at any time
+                told = *item->subscription;
+                told.eventName = strdup(item->subscription->eventName);
+                if(told.filter)
+                    rbusFilter_Retain(told.filter);
+
+                if(responseErr == RBUS_ERROR_SUCCESS)
                 {
-                    if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
+                    item->succeeded = true;
+                    UNLOCK();
+                    HANDLE_EVENTSUBS_MUTEX_LOCK(told.handle);
+                    LOCK();
+                    if(!item->canceled)
                     {
-                        RBUSLOG_INFO("%s all subscribe retries failed and no provider found", item->subscription->eventName);
-                        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", item->subscription->eventName);/*RDKB-33658-AC7*/
-                        responseErr = RBUS_ERROR_TIMEOUT;
-                    }
-                    else if(providerError != RBUS_ERROR_SUCCESS)
-                    {
-                        RBUSLOG_INFO("%s subscribe retries failed due provider error %d", item->subscription->eventName, providerError);
-                        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_INVALID_INPUT  %s", item->subscription->eventName);/*RDKB-33658-AC9*/
-                        responseErr = providerError;
-                    }
-                    else
-                    {  
-                        RBUSLOG_INFO("%s subscribe retries failed due to core error %d", item->subscription->eventName, coreerr);
-                        responseErr = RBUS_ERROR_BUS_ERROR;
+                        _subscribe_async_record(item->subscription, subscriptionId);
+                        item->subscription = NULL;
                     }
-                    if(response)
-                        rbusMessage_Release(response);
+                    HANDLE_EVENTSUBS_MUTEX_UNLOCK(told.handle);
                 }
 
-                _subscribe_async_callback_handler(item->subscription->handle, item->subscription, responseErr, subscriptionId);
-                //store the next item, because we are removing this li item from list
-                LOCK();
-                item->subscription = NULL;
-                rtListItem_GetNext(li, &tmp); 
-                rtList_RemoveItem(gRetrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
+                canceled = item->canceled;
+                retrier->calling = told.handle;
+                rtList_RemoveItem(retrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
+                ERROR_CHECK(pthread_cond_broadcast(&retrier->condItemDone));
                 UNLOCK();
-                li = tmp;
-                continue;//li is already the next item so avoid GetNext below
+
+                if(!canceled)
+                    told.asyncHandler(told.handle, &told, responseErr);
+
+                free((void*)told.eventName);
+                if(told.filter)
+                    rbusFilter_Release(told.filter);
+
+                LOCK();
+                retrier->calling = NULL;
+                ERROR_CHECK(pthread_cond_broadcast(&retrier->condItemDone));
             }
+
+            //others may have changed the list in the meantime
+            rtList_GetFront(retrier->items, &li);
+        }
+        else
+        {
+            rtListItem_GetNext(li, &li);
         }
-        rtListItem_GetNext(li, &li);    
     }
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
 static void* AsyncSubscribeRetrier_threadFunc(void* data)
 {
-    (void)data;
+    AsyncSubscribeRetrier_t* retrier = (AsyncSubscribeRetrier_t*)data;
     LOCK();
-    while(gRetrier->isRunning)
+    while(retrier->isRunning)
     {
         rtTime_t nextSendTime;
 
-        while(rbusAsyncSubscribeRetrier_DetermineNextSendTime(&nextSendTime))
+        while(retrier->isRunning && rbusAsyncSubscribeRetrier_DetermineNextSendTime(retrier, &nextSendTime))
         {
-            UNLOCK();
-            rbusAsyncSubscribeRetrier_SendSubscriptionRequests();
-            LOCK();
+            rbusAsyncSubscribeRetrier_SendSubscriptionRequests(retrier);
         }
 
-        if(gRetrier->isRunning)
+        if(retrier->isRunning)
         {
             char tbuff[200];
             rtTimespec_t ts;
@@ -295,8 +341,8 @@ static void* AsyncSubscribeRetrier_threadFunc(void* data)
 
             RBUSLOG_DEBUG("timedwait until %s", rtTime_ToString(&nextSendTime, tbuff));
  
-            err = pthread_cond_timedwait(&gRetrier->condItemAdded,
-                                         &gRetrier->mutexQueue,
+            err = pthread_cond_timedwait(&retrier->condItemAdded,
+                                         &gRetrierMutex,
                                          rtTime_ToTimespec(&nextSendTime, &ts));
             if(err != 0 && err != ETIMEDOUT)
             {
@@ -312,9 +358,9 @@ static void* AsyncSubscribeRetrier_threadFunc(void* data)
     return NULL;
 }
 
+/* Called with the lock. */
 static void rbusAsyncSubscribeRetrier_Create()
 {
-    pthread_mutexattr_t mattrib;
     pthread_condattr_t cattrib;
 
     RBUSLOG_DEBUG("%s enter", __FUNCTION__);
@@ -322,41 +368,37 @@ static void rbusAsyncSubscribeRetrier_Create()
     gRetrier = rt_malloc(sizeof(struct AsyncSubscribeRetrier_t));
 
     gRetrier->isRunning = true;
+    gRetrier->calling = NULL;
     rtList_Create(&gRetrier->items);
 
-    ERROR_CHECK(pthread_mutexattr_init(&mattrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&mattrib, PTHREAD_MUTEX_ERRORCHECK));
-    ERROR_CHECK(pthread_mutex_init(&gRetrier->mutexQueue, &mattrib));  
-    ERROR_CHECK(pthread_mutexattr_destroy(&mattrib));
-
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
     ERROR_CHECK(pthread_cond_init(&gRetrier->condItemAdded, &cattrib));
+    ERROR_CHECK(pthread_cond_init(&gRetrier->condItemDone, &cattrib));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
 
-    ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, NULL));
+    ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, gRetrier));
 
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
-static void rbusAsyncSubscribeRetrier_Destroy()
+/* Called without the lock, with a retrier which was taken out of gRetrier. */
+static void rbusAsyncSubscribeRetrier_Destroy(AsyncSubscribeRetrier_t* retrier)
 {
     RBUSLOG_DEBUG("%s enter", __FUNCTION__);
 
+    //wake up worker thread so it can exit and join
     LOCK();
-    gRetrier->isRunning = false;
+    retrier->isRunning = false;
+    ERROR_CHECK(pthread_cond_signal(&retrier->condItemAdded));
     UNLOCK();
+    ERROR_CHECK(pthread_join(retrier->threadId, NULL));
 
-    //wake up worker thread so it can exit and join
-    ERROR_CHECK(pthread_cond_signal(&gRetrier->condItemAdded));
-    ERROR_CHECK(pthread_join(gRetrier->threadId, NULL));
-
-    ERROR_CHECK(pthread_mutex_destroy(&gRetrier->mutexQueue));
-    ERROR_CHECK(pthread_cond_destroy(&gRetrier->condItemAdded));
-    rtList_Destroy(gRetrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
+    ERROR_CHECK(pthread_cond_destroy(&retrier->condItemAdded));
+    ERROR_CHECK(pthread_cond_destroy(&retrier->condItemDone));
+    rtList_Destroy(retrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
 
-    free(gRetrier);
-    gRetrier = NULL;
+    free(retrier);
 
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
@@ -367,11 +409,6 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
     char tbuff[50];
     VERIFY_NULL(subscription);
 
-    if(!gRetrier)
-    {
-        rbusAsyncSubscribeRetrier_Create();
-    }
-
     AsyncSubscription_t* item = rt_malloc(sizeof(struct AsyncSubscription_t));
 
     rbusMessage_Retain(payload);
@@ -379,6 +416,7 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
     item->subscription = subscription;
     item->payload = payload;
     item->nextWaitTime = 0;
+    item->sending = item->succeeded = item->canceled = false;
 
     rtTime_Now(&item->startTime);
     item->nextRetryTime = item->startTime; /*set to now also so we do our first sub immediately*/
@@ -386,79 +424,117 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
     RBUSLOG_INFO("%s %s", subscription->eventName, rtTime_ToString(&item->startTime, tbuff));
 
     LOCK();
+    if(!gRetrier)
+    {
+        rbusAsyncSubscribeRetrier_Create();
+    }
     rtList_PushBack(gRetrier->items, item, NULL);
-    UNLOCK();
 
     //wake up worker thread so it can process new item
     rc = pthread_cond_signal(&gRetrier->condItemAdded);
     (void)rc;
+    UNLOCK();
 }
 
+/* Called with the handle's event subscriptions locked. When it returns the subscription isn't and won't become active. */
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription)
 {
-    rtError err = RT_OK;
     bool sub_removed = false;
-    if(!gRetrier || subscription == NULL)
+    AsyncSubscription_t* item = NULL;
+
+    if(subscription == NULL)
         return false;
     LOCK();
-    err = rtList_RemoveItemByCompare(gRetrier->items, subscription,
-        rbusAsyncSubscribeRetrier_CompareSubscription, rbusAsyncSubscribeRetrier_FreeSubscription);
-    if(err == RT_OK)
+    while(gRetrier && (item = rtList_Find(gRetrier->items, subscription, rbusAsyncSubscribeRetrier_CompareSubscription)) != NULL
+        && item->sending)
+    {
+        ERROR_CHECK(pthread_cond_wait(&gRetrier->condItemDone, &gRetrierMutex));
+    }
+    if(gRetrier && item)
+    {
         sub_removed = true;
+        if(item->succeeded)
+        {
+            //the retrier frees it as soon as the event subscriptions are unlocked
+            item->canceled = true;
+            UNLOCK();
+            rbus_unsubscribeFromEvent(NULL, item->subscription->eventName, item->payload, false);
+            return sub_removed;
+        }
+        rtList_RemoveItemWithData(gRetrier->items, item, rbusAsyncSubscribeRetrier_FreeSubscription);
+    }
     UNLOCK();
     return sub_removed;
 }
 
-bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter)
+bool rbusAsyncSubscribe_GetSubscription(rbusEventSubscription_t* subscription)
 {
-    rbusEventSubscription_t sub = {0};
-    bool sub_exist = false;
+    bool sub_exist;
 
-    if(!gRetrier)
-        return sub_exist;
-    sub.handle = handle;
-    sub.eventName = eventName;
-    sub.filter = filter;
     LOCK();
-    if(rtList_Find(gRetrier->items, &sub, rbusAsyncSubscribeRetrier_CompareSubscription) != NULL)
-    {
-        sub_exist = true;
-    }
-    else
-    {
-        sub_exist = false;
-    }
+    sub_exist = gRetrier && rtList_Find(gRetrier->items, subscription, rbusAsyncSubscribeRetrier_CompareSubscription) != NULL;
     UNLOCK();
     return sub_exist;
 }
 
+/* Called before anything of the handle is freed. When it returns none of its subscriptions is pending and none of its callbacks is running
+   (other than the one which closes it). */
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle)
 {
     size_t size1, size;
-
-    if(!gRetrier)
-        return;
+    AsyncSubscribeRetrier_t* retrier = NULL;
+    bool inCallback;
 
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
     LOCK();
 
+    if(!gRetrier)
+    {
+        UNLOCK();
+        return;
+    }
+    inCallback = pthread_equal(pthread_self(), gRetrier->threadId);
+
     rtList_GetSize(gRetrier->items, &size1);
 
     //remove all items with this handle
-    rtList_RemoveItemByCompare(gRetrier->items, handle, 
-                             rbusAsyncSubscribeRetrier_CompareHandle, rbusAsyncSubscribeRetrier_FreeSubscription);
+    while(gRetrier)
+    {
+        AsyncSubscription_t* item = rtList_Find(gRetrier->items, handle, rbusAsyncSubscribeRetrier_CompareHandle);
+        if(item && !item->sending && !item->succeeded)
+        {
+            rtList_RemoveItemWithData(gRetrier->items, item, rbusAsyncSubscribeRetrier_FreeSubscription);
+        }
+        else if(item || (gRetrier->calling == handle && !inCallback))
+        {
+            ERROR_CHECK(pthread_cond_wait(&gRetrier->condItemDone, &gRetrierMutex));
+        }
+        else
+        {
+            break;
+        }
+    }
 
     //if list is empty, we can destruct
-    rtList_GetSize(gRetrier->items, &size);
+    size = 0;
+    if(gRetrier)
+    {
+        rtList_GetSize(gRetrier->items, &size);
+        if(size == 0 && !inCallback)
+        {
+            retrier = gRetrier;
+            gRetrier = NULL;
+        }
+    }
 
     UNLOCK();
 
     RBUSLOG_INFO("removed %d pending async subscriptions.  %d subs left in list.", (int)(size1-size), (int)size);
 
-    if(size == 0)
+    if(retrier)
     {
         RBUSLOG_INFO("all handles removed");
-        rbusAsyncSubscribeRetrier_Destroy();
+        rbusAsyncSubscribeRetrier_Destroy(retrier);
     }
 }
diff --git a/src/rbus/rbus_asyncsubscribe.h b/src/rbus/rbus_asyncsubscribe.h
index 4df56a2..38eaf48 100644
--- a/src/rbus/rbus_asyncsubscribe.h
+++ b/src/rbus/rbus_asyncsubscribe.h
@@ -27,7 +27,7 @@ extern "C" {
 #endif
 void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload);
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription);
-bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter);
+bool rbusAsyncSubscribe_GetSubscription(rbusEventSubscription_t* subscription);
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle);
 
 #ifdef __cplusplus
-- 
2.43.0


From 9ff1a31374b5f1b0b8760b14f33fc24f08fcd332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:35 +0000
Subject: [PATCH 56/65] fix: rbusEvent_SubscribeAsync honours its timeout
 argument

---
 src/rbus/rbus.c                | 3 ++-
 src/rbus/rbus_asyncsubscribe.c | 6 ++++--
 src/rbus/rbus_asyncsubscribe.h | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 8366fe1..8982ba9 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -5310,7 +5310,8 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     if (sub->asyncHandler)
     {
         //FIXME: this should take the payload too (mrollins) because rbus_asynsubscribe is passing NULL for filter to rbus_subscribeToEvent
-        rbusAsyncSubscribe_AddSubscription(sub, payload);
+        /*without a time limit of its own it is tried as long as configured*/
+        rbusAsyncSubscribe_AddSubscription(sub, payload, timeout > 0 ? destNotFoundTimeout : (int)rbusHandle_FetchSubscribeTimeout(handle));
 
         rbusMessage_Release(payload);
         if(dirtySub)
diff --git a/src/rbus/rbus_asyncsubscribe.c b/src/rbus/rbus_asyncsubscribe.c
index 42d9b40..4814671 100644
--- a/src/rbus/rbus_asyncsubscribe.c
+++ b/src/rbus/rbus_asyncsubscribe.c
@@ -51,6 +51,7 @@ typedef struct AsyncSubscription_t
     rbusEventSubscription_t* subscription;
     rbusMessage payload;
     int nextWaitTime;
+    int timeout;    /*how long it is tried, in milliseconds*/
     rtTime_t startTime;
     rtTime_t nextRetryTime;
     bool sending;   /*its request is being sent, without the lock: nobody else may free it*/
@@ -186,7 +187,7 @@ static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests(AsyncSubscribeRet
             rbusCoreError_t coreerr;
             rtTime_t now;
             uint32_t elapsed;
-            int timeout = rbusHandle_FetchSubscribeTimeout(item->subscription->handle);
+            int timeout = item->timeout;
             int providerError = RBUS_ERROR_SUCCESS;
             rbusMessage response = NULL;
             uint32_t subscriptionId = 0;
@@ -403,7 +404,7 @@ static void rbusAsyncSubscribeRetrier_Destroy(AsyncSubscribeRetrier_t* retrier)
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload)
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, int timeout)
 {
     int rc;
     char tbuff[50];
@@ -416,6 +417,7 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
     item->subscription = subscription;
     item->payload = payload;
     item->nextWaitTime = 0;
+    item->timeout = timeout;
     item->sending = item->succeeded = item->canceled = false;
 
     rtTime_Now(&item->startTime);
diff --git a/src/rbus/rbus_asyncsubscribe.h b/src/rbus/rbus_asyncsubscribe.h
index 38eaf48..8a92a9c 100644
--- a/src/rbus/rbus_asyncsubscribe.h
+++ b/src/rbus/rbus_asyncsubscribe.h
@@ -25,7 +25,7 @@
 #ifdef __cplusplus
 extern "C" {
 #endif
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload);
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, int timeout/*milliseconds*/);
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription);
 bool rbusAsyncSubscribe_GetSubscription(rbusEventSubscription_t* subscription);
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle);
-- 
2.43.0


From 1073bea97b65c3a6b2bd4074346a54603e105ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:35 +0000
Subject: [PATCH 57/65] fix: connections come back after a broker restart
 without hanging calls, lost listeners or deadlocks

---
 src/rtmessage/rtConnection.c | 113 +++++++++++++++++++++++------------
 1 file changed, 74 insertions(+), 39 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index ab1299b..28ca797 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -123,10 +123,10 @@ struct _rtConnection
   pthread_cond_t          callback_message_cond;
   pthread_mutex_t         reconnect_mutex;
   rtTime_t                reader_reconnect_time;
-  rtTime_t                sender_reconnect_time;
   rtTime_t                reconnect_time;
   rtTime_t                start_time;
   int                     reconnect_in_progress;
+  rtError                 reconnect_result;/*of the last attempt*/
 #ifdef WITH_SPAKE2
   rtCipher*               cipher;
   uint8_t*                encryption_buffer;
@@ -278,6 +278,16 @@ rtConnection_ShouldReregister(rtError e)
   return 0;
 }
 
+static rtError
+rtConnection_ConnectDone(rtConnection con, int is_first_connect, rtError result)
+{
+  if (!is_first_connect)
+    pthread_mutex_unlock(&con->send_mutex);
+  con->reconnect_result = result;
+  con->reconnect_in_progress = 0;
+  return result;
+}
+
 static rtError
 rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
 {
@@ -346,28 +356,34 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
       {
         rtLog_Debug("ConnectAndRegister reconnect previously complete");
       }
-      return RT_OK;
+      return con->reconnect_result;/*the other thread may not have succeeded*/
     }
   }
 
   rtSocketStorage_GetLength(&con->remote_endpoint, &socket_length);
 
-  if (con->fd != -1)
+  if (!is_first_connect)
+  {
+    /*wakes a thread which still reads from or sends to it*/
+    shutdown(con->fd, SHUT_RDWR);
+    /*nobody sends before the listeners are back, else the broker does not know where to send the answer*/
+    pthread_mutex_lock(&con->send_mutex);
     close(con->fd);
+  }
 
   rtLog_Debug("connecting to router");
   con->fd = socket(con->remote_endpoint.ss_family, SOCK_STREAM, 0);
   if (con->fd == -1)
-    return rtErrorFromErrno(errno);
+    return rtConnection_ConnectDone(con, is_first_connect, rtErrorFromErrno(errno));
   rtLog_Debug("router connection up");
 
   fdManip = fcntl(con->fd, F_GETFD);
   if (fdManip < 0)
-    return rtErrorFromErrno(errno);
+    return rtConnection_ConnectDone(con, is_first_connect, rtErrorFromErrno(errno));
 
   fdManip = fcntl(con->fd, F_SETFD, fdManip | FD_CLOEXEC);
   if (fdManip < 0)
-    return rtErrorFromErrno(errno);
+    return rtConnection_ConnectDone(con, is_first_connect, rtErrorFromErrno(errno));
 
   if (setsockopt(con->fd, SOL_TCP, TCP_NODELAY, &i, sizeof(i)) < 0)
     rtLog_Debug("Error setting TCP_NODELAY: %s", strerror(errno));
@@ -406,8 +422,7 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
 
   if(-1 == ret) {
     rtLog_Warn("failed to connected after %d attempts", retry);
-    con->reconnect_in_progress = 0;
-    return RT_NO_CONNECTION;
+    return rtConnection_ConnectDone(con, is_first_connect, RT_NO_CONNECTION);
   }
 
   rtSocket_GetLocalEndpoint(con->fd, &con->local_endpoint);
@@ -417,23 +432,39 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
 
   /*first connect return here*/
   if(is_first_connect)
-  {
-    con->reconnect_in_progress = 0;
-    return RT_OK;
-  }
+    return rtConnection_ConnectDone(con, is_first_connect, RT_OK);
 
   /*on reconnect, add back all listeners */
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
+    rtMessage m = NULL;
+    pthread_mutex_lock(&con->mutex);
     if (con->listeners[i].in_use)
     {
-      rtMessage m;
       rtMessage_Create(&m);
       rtMessage_SetInt32(m, "add", 1);
       rtMessage_SetString(m, "topic", con->listeners[i].expression);
       rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id);
-      rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
+    }
+    pthread_mutex_unlock(&con->mutex);
+    if (m)
+    {
+      /*not with rtConnection_SendMessage, which would wait for this very reconnection to end if it failed again*/
+      uint8_t* p;
+      uint32_t n;
+      rtError err;
+      uint32_t sequence_number;
+      rtMessage_ToByteArrayWithSize(m, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
+#ifdef C11_ATOMICS_SUPPORTED
+      sequence_number = atomic_fetch_add_explicit(&con->sequence_number, 1, memory_order_relaxed);
+#else
+      sequence_number = __sync_fetch_and_add(&con->sequence_number, 1);
+#endif
+      err = rtConnection_SendInternal(con, p, n, "_RTROUTED.INBOX.SUBSCRIBE", NULL, 0, sequence_number, 0, 0, 0);
+      rtMessage_FreeByteArray(p);
       rtMessage_Release(m);
+      if (err != RT_OK)
+        return rtConnection_ConnectDone(con, is_first_connect, RT_NO_CONNECTION);
 
       /*TODO: we need to readd all the aliases too -- would this allow rbus to recover from broker crash ?*/
     }
@@ -443,29 +474,29 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
   /*on reconnect, rerun key exchange since broker would have lost our key if it restarted */
   if(con->cipher)
   {
-     rtLog_Debug("Recreating cipher");
-     rtCipher_Destroy(con->cipher);
-      ret = rtCipher_CreateCipherSpake2Plus(&con->cipher, con->spakeconfig);
-      if(ret != RT_OK)
+    pthread_mutex_unlock(&con->send_mutex);/*the key exchange sends*/
+    rtLog_Debug("Recreating cipher");
+    rtCipher_Destroy(con->cipher);
+    ret = rtCipher_CreateCipherSpake2Plus(&con->cipher, con->spakeconfig);
+    if(ret != RT_OK)
+    {
+      rtLog_Error("failed to initialize spake2 based cipher");
+      //rtConnection_Destroy(con);
+    }
+    else
+    {
+      ret = rtCipher_RunKeyExchangeClient(con->cipher, con);
+      if (ret != RT_OK)
       {
-        rtLog_Error("failed to initialize spake2 based cipher");
+        rtLog_Error("failed to do key exchange");
         //rtConnection_Destroy(con);
-        con->reconnect_in_progress = 0;
-        return ret;
       }
-
-    ret = rtCipher_RunKeyExchangeClient(con->cipher, con);
-    if (ret != RT_OK)
-    {
-      rtLog_Error("failed to do key exchange");
-      //rtConnection_Destroy(con);
-      con->reconnect_in_progress = 0;
-      return ret;
     }
+    pthread_mutex_lock(&con->send_mutex);
+    return rtConnection_ConnectDone(con, is_first_connect, ret);
   }
 #endif
-  con->reconnect_in_progress = 0;
-  return RT_OK;
+  return rtConnection_ConnectDone(con, is_first_connect, RT_OK);
 }
 
 static rtError
@@ -781,9 +812,10 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    rtTime_t send_time;
+    rtTime_Now(&send_time);
     uint8_t* p;
     uint32_t n;
     rtError err;
@@ -802,7 +834,7 @@ rtConnection_SendMessageDirect(rtConnection con, rtMessage msg, char const* topi
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_ConnectAndRegister(con, &send_time);
       if(err != RT_OK)
         return err;
       else
@@ -841,9 +873,10 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    rtTime_t send_time;
+    rtTime_Now(&send_time);
     (void)timeout;
     rtError err;
     uint8_t* p;
@@ -858,7 +891,7 @@ rtConnection_SendResponse(rtConnection con, rtMessageHeader const* request_hdr,
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_ConnectAndRegister(con, &send_time);
       if(err != RT_OK)
         return err;
       else
@@ -885,9 +918,10 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
   if (!con)
     return rtErrorFromErrno(EINVAL);
 
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    rtTime_t send_time;
+    rtTime_Now(&send_time);
     rtError err;
     uint32_t sequence_number;
 
@@ -903,7 +937,7 @@ rtConnection_SendBinaryDirect(rtConnection con, uint8_t const* p, uint32_t n, ch
 
     if(err == RT_NO_CONNECTION)
     {
-      err = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      err = rtConnection_ConnectAndRegister(con, &send_time);
       if(err != RT_OK)
         return err;
       else
@@ -979,9 +1013,10 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
 {
   if (!con)
     return rtErrorFromErrno(EINVAL);
-  rtTime_Now(&con->sender_reconnect_time);
   while(1)
   {
+    rtTime_t send_time;
+    rtTime_Now(&send_time);
     rtError ret = RT_OK;
     uint8_t const* p = pReq;
     uint32_t n = nReq;
@@ -1098,7 +1133,7 @@ dequeue_and_continue:
 
     if(ret == RT_NO_CONNECTION)
     {
-      ret = rtConnection_ConnectAndRegister(con, &con->sender_reconnect_time);
+      ret = rtConnection_ConnectAndRegister(con, &send_time);
       if(ret == RT_OK)
         continue;
     }
-- 
2.43.0


From 3e96a6a49519b46e085fd541f2e829db3daff0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:20 +0000
Subject: [PATCH 58/65] fix: name the types RBUS_INT8 and RBUS_UINT8 in debug
 text

---
 src/rbus/rbus_value.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 0573a0b..03fd46d 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -78,6 +78,8 @@ char const* rbusValueType_ToDebugString(rbusValueType_t type)
       __RBUSVALUE_STRINGIFY(RBUS_BOOLEAN);
       __RBUSVALUE_STRINGIFY(RBUS_CHAR);
       __RBUSVALUE_STRINGIFY(RBUS_BYTE);
+      __RBUSVALUE_STRINGIFY(RBUS_INT8);
+      __RBUSVALUE_STRINGIFY(RBUS_UINT8);
       __RBUSVALUE_STRINGIFY(RBUS_INT16);
       __RBUSVALUE_STRINGIFY(RBUS_UINT16);
       __RBUSVALUE_STRINGIFY(RBUS_INT32);
-- 
2.43.0


From e3c499783f217aafd40d9d539f9d4b1114d6236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:20 +0000
Subject: [PATCH 59/65] fix: rbusObject_fwrite leaves out the children of an
 object without properties

---
 src/rbus/rbus_object.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index d2db725..0bd5141 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -484,8 +484,8 @@ void rbusObject_fwrite(rbusObject_t obj, int depth, FILE* fout)
         fprintf(fout, " ");
     fprintf(fout, "rbusObject name=%s\r\n", rbusObject_GetName(obj));
     prop = rbusObject_GetProperties(obj);
-    VERIFY_NULL(prop);
-    rbusProperty_fwrite(prop, depth+1, fout);
+    if(prop)
+        rbusProperty_fwrite(prop, depth+1, fout);
     child = rbusObject_GetChildren(obj);
     while(child)
     {
-- 
2.43.0


From f1957259a1573191ecee5fafa840951b2a68e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:20 +0000
Subject: [PATCH 60/65] fix: setters of properties and objects used freed
 memory when given what they already hold

---
 src/rbus/rbus_object.c   | 10 ++++------
 src/rbus/rbus_property.c | 27 +++++++++++++++------------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index 0bd5141..d116e9d 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -266,12 +266,10 @@ char const* rbusObject_GetName(rbusObject_t object)
 void rbusObject_SetName(rbusObject_t object, char const* name)
 {
     VERIFY_NULL(object);
-    if(object->name)
-        free(object->name);
-    if(name)
-        object->name = strdup(name);
-    else
-        object->name = NULL;
+    char* old = object->name;
+    /*copy before freeing because name may be the old name itself*/
+    object->name = name ? strdup(name) : NULL;
+    free(old);
 }
 
 rbusProperty_t rbusObject_GetProperties(rbusObject_t object)
diff --git a/src/rbus/rbus_property.c b/src/rbus/rbus_property.c
index c8e5a2d..9506138 100644
--- a/src/rbus/rbus_property.c
+++ b/src/rbus/rbus_property.c
@@ -171,12 +171,10 @@ char const* rbusProperty_GetName(rbusProperty_t property)
 void rbusProperty_SetName(rbusProperty_t property, char const* name)
 {
     VERIFY_NULL(property);
-    if(property->name)
-        free(property->name);
-    if(name)
-        property->name = strdup(name);
-    else
-        property->name = NULL;
+    char* old = property->name;
+    /*copy before freeing because name may be the old name itself*/
+    property->name = name ? strdup(name) : NULL;
+    free(old);
 }
 
 rbusValue_t rbusProperty_GetValue(rbusProperty_t property)
@@ -283,17 +281,21 @@ rbusValueError_t rbusProperty_GetBytesEx(rbusProperty_t property, uint8_t const*
 void rbusProperty_SetString(rbusProperty_t property, char const* s)
 {
     VERIFY_NULL(property);
-    if(property->value)
-        rbusValue_Release(property->value);
+    rbusValue_t old = property->value;
+    /*copy before releasing because the data may be that of the old value*/
     property->value = rbusValue_InitString(s);
+    if(old)
+        rbusValue_Release(old);
 }
 
 void rbusProperty_SetBytes(rbusProperty_t property, uint8_t const* bytes, int len)
 {
     VERIFY_NULL(property);
-    if(property->value)
-        rbusValue_Release(property->value);
+    rbusValue_t old = property->value;
+    /*copy before releasing because the data may be that of the old value*/
     property->value = rbusValue_InitBytes(bytes, len);
+    if(old)
+        rbusValue_Release(old);
 }
 
 rbusProperty_t rbusProperty_AppendString(rbusProperty_t property, char const* name, char const* s)
@@ -338,9 +340,10 @@ rbusValueError_t rbusProperty_Get##T1##Ex(rbusProperty_t property, T2* data)\
 }\
 void rbusProperty_Set##T1(rbusProperty_t property, T2 data)\
 {\
-    if(property->value)\
-        rbusValue_Release(property->value);\
+    rbusValue_t old = property->value;\
     property->value = rbusValue_Init##T1(data);\
+    if(old)\
+        rbusValue_Release(old);\
 }\
 rbusProperty_t rbusProperty_Append##T1(rbusProperty_t property, char const* name, T2 data)\
 {\
-- 
2.43.0


From d1e4afd322dd6fa4e8562904853f5ab9cb9e3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:34 +0000
Subject: [PATCH 61/65] fix: rbuscli overran its argument arrays when given
 many parameters or words

---
 utils/rbuscli/rbuscli.c | 46 ++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/utils/rbuscli/rbuscli.c b/utils/rbuscli/rbuscli.c
index 8037b1d..9a617fd 100644
--- a/utils/rbuscli/rbuscli.c
+++ b/utils/rbuscli/rbuscli.c
@@ -41,7 +41,7 @@
 
 #define RBUS_CLI_COMPONENT_NAME "rbuscli"
 #define RBUS_CLI_MAX_PARAM      25
-#define RBUS_CLI_MAX_CMD_ARG    (RBUS_CLI_MAX_PARAM * 3)
+#define RBUS_CLI_MAX_CMD_ARG    (RBUS_CLI_MAX_PARAM * 3 + 4) /* the tool, the command, its parameters, commit, NULL */
 #define BT_BUF_SIZE 512
 
 
@@ -964,20 +964,14 @@ void execute_discover_component_cmd(int argc, char* argv[])
 {
     rbusError_t rc = RBUS_ERROR_SUCCESS;
     int elementCnt = argc - 2;
-    int index = 0;
     int i;
     int componentCnt = 0;
     char **pComponentNames;
-    char const* pElementNames[RBUS_CLI_MAX_PARAM] = {0, 0};
+    char const** pElementNames = (char const**)&argv[2];
 
     if (!verify_rbus_open())
         return;
 
-    for (index = 0, i = 2; index < elementCnt; index++, i++)
-    {
-        pElementNames[index] = argv[i];
-    }
-
     runSteps = __LINE__;
     rc = rbus_discoverComponentName (g_busHandle, elementCnt, pElementNames, &componentCnt, &pComponentNames);
     if(RBUS_ERROR_SUCCESS == rc)
@@ -1162,10 +1156,9 @@ void validate_and_execute_get_cmd (int argc, char *argv[])
     rbusError_t rc = RBUS_ERROR_SUCCESS;
     int numOfInputParams = argc - 2;
     int i = 0;
-    int index = 0;
     int numOfOutVals = 0;
     rbusProperty_t outputVals = NULL;
-    const char *pInputParam[RBUS_CLI_MAX_PARAM] = {0, 0};
+    const char **pInputParam = (const char**)&argv[2];
     bool isWildCard = false;
 
     if ((numOfInputParams < 1) || ((strcmp("-g", argv[1]) == 0) && (numOfInputParams > 1)))
@@ -1178,9 +1171,6 @@ void validate_and_execute_get_cmd (int argc, char *argv[])
         return;
 
     runSteps = __LINE__;
-    for (index = 0, i = 2; index < numOfInputParams; index++, i++)
-        pInputParam[index] = argv[i];
-
     if(numOfInputParams == 1)
     {
         if(pInputParam[0][strlen(pInputParam[0])-1] == '.' || strchr(pInputParam[0], '*'))
@@ -1333,8 +1323,8 @@ void validate_and_execute_set_cmd (int argc, char *argv[])
         int loopCnt = 0;
         int paramCnt = i/3;
         rbusProperty_t properties = NULL;
-        rbusValue_t setVal[RBUS_CLI_MAX_PARAM];
-        char const* setNames[RBUS_CLI_MAX_PARAM];
+        rbusValue_t setVal[paramCnt];
+        char const* setNames[paramCnt];
 
         for (index = 0, loopCnt = 0; index < paramCnt; loopCnt+=3, index++)
         {
@@ -2592,6 +2582,7 @@ static int construct_input_into_cmds(char* buff, int* pargc, char** argv)
     int len = (int)strlen(buff);
     int i, j, quote;
     int argc = 0;
+    *pargc = 0;
     argv[argc++] = "rbuscli";
     runSteps = __LINE__;
     for(i = 0; i < len; ++i)
@@ -2620,15 +2611,18 @@ static int construct_input_into_cmds(char* buff, int* pargc, char** argv)
               ( (quote == 1 && buff[i-1] != '\'') ||
                 (quote == 2 && buff[i-1] != '"' ) ) )
         {
-            argc = 0;
+            printf("Command missing quotes\r\n");
+            *pargc = argc;
             return 1;
         }
-        if(argv)
+        if(argc == RBUS_CLI_MAX_CMD_ARG - 1) /* the list ends with a NULL, like that of main */
         {
-            buff[i] = 0;
-            argv[argc] = strdup(buff+j);
+            printf("Too many arguments\r\n");
+            *pargc = argc;
+            return 1;
         }
-        argc++;
+        buff[i] = 0;
+        argv[argc++] = strdup(buff+j);
     }
     *pargc = argc;
     return 0;
@@ -3047,16 +3041,12 @@ int main( int argc, char *argv[] )
                 linenoiseHistoryAdd(line);
 
                 memset(interArgv, 0, sizeof(interArgv));
+                int i;
                 if(construct_input_into_cmds(line, &interArgc, interArgv) == 0)
-                {
-                    int i;
                     isExit = handle_cmds (interArgc, interArgv);
-                    for(i = 1; i < interArgc; ++i)
-                        if(interArgv[i])
-                            free(interArgv[i]);
-                }
-                else
-                    printf("Command missing quotes\r\n");
+                for(i = 1; i < interArgc; ++i)
+                    if(interArgv[i])
+                        free(interArgv[i]);
             }
             runSteps = __LINE__;
             linenoiseFree(line);
-- 
2.43.0


From 18a67ea5bd9e0952568c84168cf81f908ea9a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:34 +0000
Subject: [PATCH 62/65] fix: rbuscli read before the start of an empty name

---
 utils/rbuscli/rbuscli.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/rbuscli/rbuscli.c b/utils/rbuscli/rbuscli.c
index 9a617fd..97bc4c5 100644
--- a/utils/rbuscli/rbuscli.c
+++ b/utils/rbuscli/rbuscli.c
@@ -1104,7 +1104,7 @@ void validate_and_execute_open_n_close_direct_cmd(int argc, char *argv[], bool i
     runSteps = __LINE__;
     pInputParam[0] = argv[2];
 
-    if(pInputParam[0][strlen(pInputParam[0])-1] == '.' || strchr(pInputParam[0], '*'))
+    if(pInputParam[0][0] == '\0' || pInputParam[0][strlen(pInputParam[0])-1] == '.' || strchr(pInputParam[0], '*'))
     {
         printf ("Invalid arguments. Please see the help\r\n");
         return;
@@ -1173,7 +1173,7 @@ void validate_and_execute_get_cmd (int argc, char *argv[])
     runSteps = __LINE__;
     if(numOfInputParams == 1)
     {
-        if(pInputParam[0][strlen(pInputParam[0])-1] == '.' || strchr(pInputParam[0], '*'))
+        if(pInputParam[0][0] != '\0' && (pInputParam[0][strlen(pInputParam[0])-1] == '.' || strchr(pInputParam[0], '*')))
 	{
 	    isWildCard = true;
 	    if ((strcmp("-g", argv[1]) == 0))
-- 
2.43.0


From 1fa414da95213c588f2048ce1c82fde55b6582bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:34 +0000
Subject: [PATCH 63/65] fix: rbuscli set ignored values it cannot parse and
 leaked what it had prepared

---
 utils/rbuscli/rbuscli.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils/rbuscli/rbuscli.c b/utils/rbuscli/rbuscli.c
index 97bc4c5..f76ad6a 100644
--- a/utils/rbuscli/rbuscli.c
+++ b/utils/rbuscli/rbuscli.c
@@ -1344,7 +1344,12 @@ void validate_and_execute_set_cmd (int argc, char *argv[])
                 break;
             }
 
-            rbusValue_SetFromString(setVal[index], type, argv[loopCnt+4]);
+            if (!rbusValue_SetFromString(setVal[index], type, argv[loopCnt+4]))
+            {
+                printf ("Invalid data value passed to set. Please pass proper value with respect to the data type\r\n");
+                isInvalid = 1;
+                break;
+            }
 
             rbusProperty_t next;
             rbusProperty_Init(&next, setNames[index], setVal[index]);
@@ -1424,7 +1429,7 @@ void validate_and_execute_set_cmd (int argc, char *argv[])
         else
         {
             /* Since we allocated memory for `loopCnt` times, we must free them.. lets update the `paramCnt` to `loopCnt`; so that the below free function will take care */
-            paramCnt = index;
+            paramCnt = index + 1;
             rc = RBUS_ERROR_INVALID_INPUT;
         }
 
@@ -1433,7 +1438,8 @@ void validate_and_execute_set_cmd (int argc, char *argv[])
         {
             rbusValue_Release(setVal[loopCnt]);
         }
-        rbusProperty_Release(properties);
+        if(properties)
+            rbusProperty_Release(properties);
     }
     else /* Single Set Command */
     {
@@ -1447,6 +1453,7 @@ void validate_and_execute_set_cmd (int argc, char *argv[])
         {
             rc = RBUS_ERROR_INVALID_INPUT;
             RBUSCLI_LOG ("Invalid data value passed to set. Please pass proper value with respect to the data type\nsetvalues failed with return value: %d\n", rc);
+            rbusValue_Release(setVal);
             return;
         }
         if (type != RBUS_NONE)
@@ -2269,6 +2276,7 @@ void validate_and_execute_method_values_cmd (int argc, char *argv[])
         if(false == rbusValue_SetFromString(value, type, argv[i+2]))
         {
             printf ("Invalid value '%s' for the parameter %s\r\n",argv[i+2],argv[i]);
+            rbusValue_Release(value);
             if(inParams)
                 rbusObject_Release(inParams);
             return;
-- 
2.43.0


From 13766b02657f9e990f1370079bddc6319d2f6d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:34 +0000
Subject: [PATCH 64/65] fix: rbuscli printed raw event data beyond its length

---
 utils/rbuscli/rbuscli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rbuscli/rbuscli.c b/utils/rbuscli/rbuscli.c
index f76ad6a..6730dbb 100644
--- a/utils/rbuscli/rbuscli.c
+++ b/utils/rbuscli/rbuscli.c
@@ -872,7 +872,7 @@ static void event_receive_handler1(rbusHandle_t handle, rbusEventRawData_t const
     runSteps = __LINE__;
     printf("\nevent_receive_handler1 called\r\n");
     printf("Event received %s\r\n", event->name);
-    printf("Event data: %s\r\n", (char*)event->rawData);
+    printf("Event data: %.*s\r\n", (int)event->rawDataLen, (char*)event->rawData);
     printf("Event data len: %d\r\n", event->rawDataLen);
     printf("\r\n");
 }
-- 
2.43.0


From 6bb910ba529e42de247e84c57a59dce87bd23a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:34 +0000
Subject: [PATCH 65/65] fix: rbuscli subscriptions: overflow of the user data,
 a raw and a plain subscription shared it, crash on an incomplete filter

---
 utils/rbuscli/rbuscli.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utils/rbuscli/rbuscli.c b/utils/rbuscli/rbuscli.c
index 6730dbb..5b03a11 100644
--- a/utils/rbuscli/rbuscli.c
+++ b/utils/rbuscli/rbuscli.c
@@ -1978,7 +1978,7 @@ void validate_and_execute_subscribe_cmd (int argc, char *argv[], bool add, bool
 
     if(1)
     {
-        userData = rt_calloc(1, 256);
+        userData = rt_calloc(1, 256 + 16); /* 16 for the words and blanks added below */
         if (matchCmd(argv[1], 4, "subinterval") || matchCmd(argv[1], 6, "unsubinterval"))
         {
             subinterval = true;
@@ -1986,7 +1986,7 @@ void validate_and_execute_subscribe_cmd (int argc, char *argv[], bool add, bool
         }
         else
         {
-            strcat(userData, "sub ");
+            strcat(userData, rawDataSub ? "rawsub " : "sub ");
         }
         strcat(userData, argv[2]);
     }
@@ -2030,7 +2030,7 @@ void validate_and_execute_subscribe_cmd (int argc, char *argv[], bool add, bool
                 }
             }
         }
-        else if (((relOp = find_filter(argv)) >= 0) && (argc < 7))
+        else if (((relOp = find_filter(argv)) >= 0) && (argc > 4) && (argc < 7))
         {
             strcat(userData, " ");
             strcat(userData, argv[3]);
@@ -2068,6 +2068,10 @@ void validate_and_execute_subscribe_cmd (int argc, char *argv[], bool add, bool
 exit_error:
         runSteps = __LINE__;
         printf ("Invalid arguments. Please see the help\r\n");
+        if(filterValue)
+            rbusValue_Release(filterValue);
+        if(filter)
+            rbusFilter_Release(filter);
         rt_free(userData);
         return;
     }
-- 
2.43.0

