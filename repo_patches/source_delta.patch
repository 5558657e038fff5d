From d34a590d8d25c015774838d0d10bf6848eb20797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 01/44] fix: correct GSM-7 table entries for the section sign
 and the form feed

Code 0x5F is the section sign (it was mapped to the backquote), and extension
code 0x0A is the form feed (it was keyed by an unrelated character with an
integer value, so encoding that character raised TypeError).
---
 gsmmodem/pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index ee15ebc..e67d71f 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -25,8 +25,8 @@ else: #pragma: no cover
     rawStrToByteArray = bytearray
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
-GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
-GSM7_EXTENDED = {chr(0xFF): 0x0A,
+GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ§¿abcdefghijklmnopqrstuvwxyzäöñüà')
+GSM7_EXTENDED = {chr(0x0C): chr(0x0A), # form feed
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
                  #SS2: chr(0x1B),
-- 
2.43.0


From 86b32c44ed17339b6df606b2f09467d43ba33741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 02/44] fix: do not treat the GSM-7 escape code as an encodable
 character

A text containing U+001B was encoded as a bare escape code, which swallowed
the character after it; decoding data that ends in an escape code raised
StopIteration.
---
 gsmmodem/pdu.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index e67d71f..481dfd3 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -676,7 +676,7 @@ def encodeGsm7(plaintext, discardInvalid=False):
         plaintext = str(plaintext)
     for char in plaintext:
         idx = GSM7_BASIC.find(char)
-        if idx != -1:
+        if idx != -1 and idx != 0x1B: # 0x1B is the escape code, not a character
             result.append(idx)
         elif char in GSM7_EXTENDED:
             result.append(0x1B) # ESC - switch to extended table
@@ -702,7 +702,10 @@ def decodeGsm7(encodedText):
     iterEncoded = iter(encodedText)
     for b in iterEncoded:
         if b == 0x1B: # ESC - switch to extended table
-            c = chr(next(iterEncoded))
+            c = next(iterEncoded, None)
+            if c == None:
+                break # dangling escape code at the end of the data
+            c = chr(c)
             for char, value in dictItemsIter(GSM7_EXTENDED):
                 if c == value:
                     result.append(char)
-- 
2.43.0


From 437243cee5360b20fd6b9b9b326bfe440da49475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 03/44] fix: allow packing and unpacking zero septets

An SMS with an empty text could not be encoded (StopIteration) or decoded
(TypeError).
---
 gsmmodem/pdu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 481dfd3..d910157 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -729,7 +729,9 @@ def packSeptets(octets, padBits=0):
         octets = iter(octets)
     shift = padBits
     if padBits == 0:
-        prevSeptet = next(octets)
+        prevSeptet = next(octets, None)
+        if prevSeptet == None:
+            return result # nothing to pack
     else:
         prevSeptet = 0x00
     for octet in octets:
@@ -788,7 +790,7 @@ def unpackSeptets(septets, numberOfSeptets=None, prevOctet=None, shift=7):
         
         if i == numberOfSeptets:
             break
-    if shift == 7:
+    if shift == 7 and prevOctet != None:
         b = prevOctet >> (8 - shift)
         if b:
             # The final septet value still needs to be unpacked
-- 
2.43.0


From 8631dd4d5396daaf1c58791f580b66ea0e5f5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 04/44] fix: encode and decode characters outside the BMP as
 surrogate pairs

Such characters (e.g. emoji) raised ValueError when encoded and came out as
two lone surrogates when decoded.
---
 gsmmodem/pdu.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index d910157..6af94ab 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -803,12 +803,16 @@ def decodeUcs2(byteIter, numBytes):
     i = 0
     try:
         while i < numBytes:
-            userData.append(unichr((next(byteIter) << 8) | next(byteIter)))
+            unit = (next(byteIter) << 8) | next(byteIter)
             i += 2
+            if 0xDC00 <= unit <= 0xDFFF and len(userData) > 0 and 0xD800 <= userData[-1] <= 0xDBFF:
+                # Second half of a surrogate pair
+                unit = 0x10000 + ((userData.pop() & 0x3FF) << 10) + (unit & 0x3FF)
+            userData.append(unit)
     except StopIteration:
         # Not enough bytes in iterator to reach numBytes; return what we have
         pass
-    return ''.join(userData)
+    return ''.join(map(unichr, userData))
 
 def encodeUcs2(text):
     """ UCS2 text encoding algorithm
@@ -822,6 +826,13 @@ def encodeUcs2(text):
     """
     result = bytearray()
     for b in map(ord, text):
-        result.append(b >> 8)
-        result.append(b & 0xFF)
+        if b > 0xFFFF:
+            # Not in the basic multilingual plane - needs a surrogate pair
+            b -= 0x10000
+            units = (0xD800 | (b >> 10), 0xDC00 | (b & 0x3FF))
+        else:
+            units = (b,)
+        for unit in units:
+            result.append(unit >> 8)
+            result.append(unit & 0xFF)
     return result
-- 
2.43.0


From 841ad69533e30781d387ef6bff6c99d298148ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 05/44] fix: split long SMS texts by encoded length

The number of parts was computed as len(text) / 160 (or 70) + 1 although each
part only holds 153 (67) septets (units), so the end of e.g. a 310 character
text was never sent. Characters that need two septets (extension table) or two
UCS2 units counted as one, producing parts larger than 140 octets.
---
 gsmmodem/pdu.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 6af94ab..2896517 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -42,6 +42,9 @@ GSM7_EXTENDED = {chr(0x0C): chr(0x0A), # form feed
 MAX_MESSAGE_LENGTH = {0x00: 160, # GSM-7
                       0x04: 140, # 8-bit
                       0x08: 70}  # UCS2
+# Maximum message part sizes if a concatenation header has to be included
+MAX_CONCATENATED_MESSAGE_LENGTH = {0x00: 153, # GSM-7
+                                   0x08: 67}  # UCS2
 
 class SmsPduTzInfo(tzinfo):
     """ Simple implementation of datetime.tzinfo for handling timestamp GMT offsets specified in SMS PDUs """
@@ -284,16 +287,17 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         alphabet = 0x00 # GSM-7    
         
     # Check if message should be concatenated
-    if len(text) > MAX_MESSAGE_LENGTH[alphabet]:
+    pduTexts = _splitText(text, alphabet, MAX_MESSAGE_LENGTH[alphabet])
+    if len(pduTexts) > 1:
         # Text too long for single PDU - add "concatenation" User Data Header
+        pduTexts = _splitText(text, alphabet, MAX_CONCATENATED_MESSAGE_LENGTH[alphabet])
         concatHeaderPrototype = Concatenation()
         concatHeaderPrototype.reference = reference
-        pduCount = int(len(text) / MAX_MESSAGE_LENGTH[alphabet]) + 1
-        concatHeaderPrototype.parts  = pduCount
+        concatHeaderPrototype.parts = len(pduTexts)
         tpduFirstOctet |= 0x40
     else:
         concatHeaderPrototype = None
-        pduCount = 1
+    pduCount = len(pduTexts)
     
     # Construct required PDU(s)
     pdus = []    
@@ -308,13 +312,8 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         if concatHeaderPrototype != None:
             concatHeader = copy(concatHeaderPrototype)
             concatHeader.number = i + 1
-            if alphabet == 0x00:
-                pduText = text[i*153:(i+1) * 153]
-            elif alphabet == 0x08:
-                pduText = text[i * 67 : (i + 1) * 67]
             udh.extend(concatHeader.encode())
-        else:
-            pduText = text
+        pduText = pduTexts[i]
         
         udhLen = len(udh)        
         
@@ -354,6 +353,23 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
+def _splitText(text, alphabet, maxLength):
+    """ Splits the text into parts of at most maxLength septets (GSM-7) or 16-bit units (UCS2) once encoded,
+    keeping the septets/units of a single character together
+    
+    :return: list of strings (containing at least one item)
+    """
+    parts = []
+    start = length = 0
+    for i, char in enumerate(text):
+        charLength = len(encodeGsm7(char)) if alphabet == 0x00 else len(encodeUcs2(char)) // 2
+        if length + charLength > maxLength:
+            parts.append(text[start:i])
+            start, length = i, 0
+        length += charLength
+    parts.append(text[start:])
+    return parts
+
 def decodeSmsPdu(pdu):
     """ Decodes SMS pdu data and returns a tuple in format (number, text)
     
-- 
2.43.0


From 43cdd03ce1ddaff1c66beb592543e547369b2a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 06/44] fix: exclude the whole SMSC field from the TPDU length

With an SMSC number specified, the reported length was too large.
---
 gsmmodem/pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 2896517..4d4117d 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -307,6 +307,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
             pdu.extend(_encodeAddressField(smsc, smscField=True))
         else:
             pdu.append(0x00) # Don't supply an SMSC number - use the one configured in the device 
+        smscLength = len(pdu)
     
         udh = bytearray()
         if concatHeaderPrototype != None:
@@ -349,7 +350,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         else:
             pdu.append(userDataLength)
         pdu.extend(userData) # User Data (message payload)
-        tpdu_length = len(pdu) - 1
+        tpdu_length = len(pdu) - smscLength # the SMSC field is not part of the TPDU
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
-- 
2.43.0


From d782ee966611b733277b4547c29ee62858e6076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:06 +0000
Subject: [PATCH 07/44] fix: honour the user data length when decoding SMS text

A final '@' (septet zero) was lost when the septets fill whole octets, the
first character was lost when the user data header needs no fill bits, data
behind the user data was taken as text, and a header without any text raised
StopIteration.
---
 gsmmodem/pdu.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 4d4117d..d9852ae 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -437,6 +437,9 @@ def decodeSmsPdu(pdu):
 def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
     """ Decodes PDU user data (UDHI (if present) and message text) """
     result = {}
+    prevOctet = None
+    shift = 7
+    headerLen = headerSeptets = 0 # Length of the UDH (if any), in octets and in septets
     if udhPresent:
         # User Data Header is present
         result['udh'] = []
@@ -448,7 +451,9 @@ def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
             ieLenRead += len(ie)
             result['udh'].append(ie)
         del ieLenRead
-        if dataCoding == 0x00: # GSM-7
+        headerLen = udhLen + 1
+        headerSeptets = (headerLen * 8 + 6) // 7
+        if dataCoding == 0x00 and (headerLen * 8) % 7 != 0 and userDataLen > headerSeptets: # GSM-7
             # Since we are using 7-bit data, "fill bits" may have been added to make the UDH end on a septet boundary
             shift = ((udhLen + 1) * 8) % 7 # "fill bits" needed to make the UDH end on a septet boundary
             # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
@@ -456,20 +461,32 @@ def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
             shift += 1
 
     if dataCoding == 0x00: # GSM-7
-        if udhPresent:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen, prevOctet, shift)
-        else:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen)
+        textLen = max(userDataLen - headerSeptets, 0)
+        userDataSeptets = _unpackSeptetsExact(byteIter, textLen, prevOctet, shift)
         result['text'] = decodeGsm7(userDataSeptets)
     elif dataCoding == 0x02: # UCS2
-        result['text'] = decodeUcs2(byteIter, userDataLen)
+        result['text'] = decodeUcs2(byteIter, userDataLen - headerLen)
     else: # 8-bit (data)
         userData = []
         for b in byteIter:
+            if len(userData) == userDataLen - headerLen:
+                break
             userData.append(unichr(b))
         result['text'] = ''.join(userData)
     return result
 
+def _unpackSeptetsExact(byteIter, count, prevOctet=None, shift=7):
+    """ Unpacks exactly the specified amount of septets (or fewer, if there is not enough data)
+    
+    Unlike unpackSeptets() without a limit, this does not mistake a final zero septet (the "@" character)
+    for padding, nor padding for a septet.
+    """
+    octets = bytearray(byteIter)
+    septets = unpackSeptets(octets, None, prevOctet, shift)
+    if len(septets) == count - 1 and len(octets) * 8 + (shift if prevOctet != None else 0) >= count * 7:
+        septets.append(0x00) # the last septet is zero
+    return septets[:count]
+
 def _decodeRelativeValidityPeriod(tpVp):
     """ Calculates the relative SMS validity period (based on the table in section 9.2.3.12 of GSM 03.40)
     :rtype: datetime.timedelta
-- 
2.43.0


From 3a1d273810247b5b238f235ce81f29ca212eae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:06 +0000
Subject: [PATCH 08/44] fix: raise EncodingError for all undecodable PDUs

Truncated PDUs or PDUs with invalid fields raised StopIteration, ValueError,
IndexError, etc. instead of the documented EncodingError, which callers such
as listStoredSms() rely on.
---
 gsmmodem/pdu.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index d9852ae..908c1ea 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -387,6 +387,16 @@ def decodeSmsPdu(pdu):
     except Exception as e:
         # Python 2 raises TypeError, Python 3 raises binascii.Error
         raise EncodingError(e)
+    try:
+        return _decodeSmsPduOctets(pdu)
+    except EncodingError:
+        raise
+    except Exception as e:
+        # The data ends prematurely (StopIteration) or contains invalid values
+        raise EncodingError('Invalid SMS PDU: {0!r}'.format(e))
+
+def _decodeSmsPduOctets(pdu):
+    """ Implementation of decodeSmsPdu() for a bytearray containing the PDU """
     result = {}
     pduIter = iter(pdu)
  
-- 
2.43.0


From 4e56ebac64e8cc093fc1ff7940c8f57b2909a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:06 +0000
Subject: [PATCH 09/44] fix: keep fractions of an hour in text mode time zone
 offsets

---
 gsmmodem/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/util.py b/gsmmodem/util.py
index 1008e5c..0afdb73 100644
--- a/gsmmodem/util.py
+++ b/gsmmodem/util.py
@@ -41,7 +41,7 @@ def parseTextModeTimeStr(timeStr):
     :rtype: datetime.datetime
     """
     msgTime = timeStr[:-3]
-    tzOffsetHours = int(int(timeStr[-3:]) * 0.25)
+    tzOffsetHours = int(timeStr[-3:]) * 0.25
     return datetime.strptime(msgTime, '%y/%m/%d,%H:%M:%S').replace(tzinfo=SimpleOffsetTzInfo(tzOffsetHours))
 
 def lineStartingWith(string, lines):
-- 
2.43.0


From 23eced6918847321a7dd1f688f8f7f09756072d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:08 +0000
Subject: [PATCH 10/44] fix: exact lengths of alphanumeric and empty address
 fields

The length of an alphanumeric address counts useful semi-octets: names of 4, 5
or 7 characters were announced too long (a standard decoder sees an extra '@'),
and names ending in '@' lost it when decoded. An empty address still has a type
octet, which was taken for the next field.
---
 gsmmodem/pdu.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 908c1ea..dc4a4e1 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 import sys, codecs, math
 from datetime import datetime, timedelta, tzinfo
 from copy import copy
+from itertools import islice
 from .exceptions import EncodingError
 
 # For Python 3 support
@@ -592,8 +593,9 @@ def _decodeAddressField(byteIter, smscField=False, log=False):
         ton = (toa & 0x70) # bits 6,5,4 of type-of-address == type-of-number
         if ton == 0x50: 
             # Alphanumberic number            
+            numSeptets = addressLen * 4 // 7
             addressLen = int(math.ceil(addressLen / 2.0))
-            septets = unpackSeptets(byteIter, addressLen)
+            septets = _unpackSeptetsExact(islice(byteIter, addressLen), numSeptets)
             addressValue = decodeGsm7(septets)
             return (addressValue, (addressLen + 2))
         else:
@@ -611,8 +613,11 @@ def _decodeAddressField(byteIter, smscField=False, log=False):
             if ton == 0x10: # International number
                 addressValue = '+' + addressValue
             return (addressValue, (addressLen + 1))
-    else:
+    elif smscField:
         return (None, 1)
+    else:
+        next(byteIter) # the type-of-address octet is always present
+        return (None, 2)
 
 def _encodeAddressField(address, smscField=False):
     """ Encodes the address into an address field
@@ -648,8 +653,9 @@ def _encodeAddressField(address, smscField=False):
             toa &= 0xFE # switch to "unknown" numbering plan
             alphaNumeric = True
     if  alphaNumeric:
-        addressValue = packSeptets(encodeGsm7(address, False))
-        addressLen = len(addressValue) * 2        
+        septets = encodeGsm7(address, False)
+        addressValue = packSeptets(septets)
+        addressLen = int(math.ceil(len(septets) * 7 / 4.0)) # amount of useful semi-octets
     else:
         addressValue = encodeSemiOctets(address)
         if smscField:            
-- 
2.43.0


From 540734e371bbfea0c8d245390054f07133052d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:28 +0000
Subject: [PATCH 11/44] fix: recognize the alphabet in the other data coding
 groups

8-bit messages using the data coding/message class group (e.g. 0xF5) and UCS2
message waiting indications were decoded as GSM-7 text.
---
 gsmmodem/pdu.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index dc4a4e1..475d073 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -571,10 +571,14 @@ def _encodeTimestamp(timestamp):
     return encodeSemiOctets(dateStr)
 
 def _decodeDataCoding(octet):
-    if octet & 0xC0 == 0:
+    if octet & 0x80 == 0: # general data coding, optionally marked for automatic deletion
         #compressed = octect & 0x20
         alphabet = (octet & 0x0C) >> 2
         return alphabet # 0x00 == GSM-7, 0x01 == 8-bit data, 0x02 == UCS2
+    elif octet & 0xF0 == 0xF0: # data coding/message class
+        return (octet & 0x04) >> 2
+    elif octet & 0xF0 == 0xE0: # message waiting indication: store message (UCS2)
+        return 0x02
     # We ignore other coding groups
     return 0    
 
-- 
2.43.0


From cd58a7382aa568d97a801988bfae1d8c09426859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:32 +0000
Subject: [PATCH 12/44] fix: only a complete final result line ends a response

The alternatives of RESPONSE_TERM were not grouped, so any line that
merely began with OK or ERROR (e.g. the first line of a text message)
terminated the response and the rest was treated as a notification.
---
 gsmmodem/serial_comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index ac445f5..2035366 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -18,7 +18,7 @@ class SerialComms(object):
     # End-of-line read terminator
     RX_EOL_SEQ = '\r\n'
     # End-of-response terminator
-    RESPONSE_TERM = re.compile(r'^OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT)$')
+    RESPONSE_TERM = re.compile(r'^(OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT))$')
     # Default timeout for serial port reads (in seconds)
     timeout = 1
         
-- 
2.43.0


From 483fa9b4e2217ab29bcceae9f896c15a1fb677ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:54 +0000
Subject: [PATCH 13/44] fix: never leave a notification stuck in the read
 buffer

If more characters were waiting when the last line of a notification was
read, but they did not complete another (non-empty) line, the
notification was only delivered together with the next one, if any.
---
 gsmmodem/serial_comms.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 2035366..1d433aa 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -70,12 +70,16 @@ class SerialComms(object):
         else:            
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
-            if self.serial.inWaiting() == 0:
-                # No more chars on the way for this notification - notify higher-level callback
-                #print 'notification:', self._notification
-                self.log.debug('notification: %s', self._notification)
-                self.notifyCallback(self._notification)
-                self._notification = []                
+            self._flushNotification()
+
+    def _flushNotification(self):
+        if len(self._notification) > 0 and self.serial.inWaiting() == 0:
+            # No more chars on the way for this notification - notify higher-level callback
+            #print 'notification:', self._notification
+            self.log.debug('notification: %s', self._notification)
+            notification = self._notification
+            self._notification = []
+            self.notifyCallback(notification)
 
     def _placeholderCallback(self, *args, **kwargs):
         """ Placeholder callback function (does nothing) """
@@ -101,13 +105,17 @@ class SerialComms(object):
                         if len(line) > 0:                          
                             #print 'calling handler'                      
                             self._handleLineRead(line)
+                        else:
+                            # The blank line may have been all that was still on the way
+                            self._flushNotification()
                     elif self._expectResponseTermSeq:
                         if rxBuffer[-len(self._expectResponseTermSeq):] == self._expectResponseTermSeq:
                             line = ''.join(rxBuffer) 
                             rxBuffer = []
                             self._handleLineRead(line, checkForResponseTerm=False)                                                
-            #else:
-                #' <RX timeout>'
+                else:
+                    #' <RX timeout>'
+                    self._flushNotification() # whatever was on the way for this notification did not complete a line
         except serial.SerialException as e:
             self.alive = False
             try:
-- 
2.43.0


From 070d3d0ce2688d06dec0e6738e1ce51635b110cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 14/44] fix: protect the response state shared by the read
 thread and writers

The read thread inspected and changed the pending response without any
synchronization with a writer whose wait times out (AttributeError and
TypeError in the read thread, lost lines), a failed write left the
response pending forever, and anything that ended like the expected
prompt was mistaken for it.
---
 gsmmodem/serial_comms.py | 73 ++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 32 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 1d433aa..f04e156 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -36,6 +36,8 @@ class SerialComms(object):
         self._expectResponseTermSeq = None # expected response terminator sequence
         self._response = None # Buffer containing response to a written command
         self._notification = [] # Buffer containing lines from an unsolicited notification from the modem
+        # Lock protecting the state of the response that is being waited for (shared with the read thread)
+        self._responseLock = threading.Lock()
         # Reentrant lock for managing concurrent write access to the underlying serial port
         self._txLock = threading.RLock()
         
@@ -57,17 +59,19 @@ class SerialComms(object):
         self.rxThread.join()
         self.serial.close()
 
-    def _handleLineRead(self, line, checkForResponseTerm=True):
+    def _handleLineRead(self, line):
         #print 'sc.hlineread:',line
-        if self._responseEvent and not self._responseEvent.is_set():
-            # A response event has been set up (another thread is waiting for this response)
-            self._response.append(line)
-            if not checkForResponseTerm or self.RESPONSE_TERM.match(line):
-                # End of response reached; notify waiting thread
-                #print 'response:', self._response
-                self.log.debug('response: %s', self._response)
-                self._responseEvent.set()
-        else:            
+        with self._responseLock:
+            responseWanted = self._responseEvent != None and not self._responseEvent.is_set()
+            if responseWanted:
+                # A response event has been set up (another thread is waiting for this response)
+                self._response.append(line)
+                if self.RESPONSE_TERM.match(line) or list(line) == self._expectResponseTermSeq:
+                    # End of response reached; notify waiting thread
+                    #print 'response:', self._response
+                    self.log.debug('response: %s', self._response)
+                    self._responseEvent.set()
+        if not responseWanted:
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
             self._flushNotification()
@@ -108,11 +112,10 @@ class SerialComms(object):
                         else:
                             # The blank line may have been all that was still on the way
                             self._flushNotification()
-                    elif self._expectResponseTermSeq:
-                        if rxBuffer[-len(self._expectResponseTermSeq):] == self._expectResponseTermSeq:
-                            line = ''.join(rxBuffer) 
-                            rxBuffer = []
-                            self._handleLineRead(line, checkForResponseTerm=False)                                                
+                    elif rxBuffer == self._expectResponseTermSeq:
+                        line = ''.join(rxBuffer) 
+                        rxBuffer = []
+                        self._handleLineRead(line)
                 else:
                     #' <RX timeout>'
                     self._flushNotification() # whatever was on the way for this notification did not complete a line
@@ -128,22 +131,28 @@ class SerialComms(object):
     def write(self, data, waitForResponse=True, timeout=5, expectedResponseTermSeq=None):
         with self._txLock:            
             if waitForResponse:
-                if expectedResponseTermSeq:
-                    self._expectResponseTermSeq = list(expectedResponseTermSeq) 
-                self._response = []
-                self._responseEvent = threading.Event()                
-                self.serial.write(data)
-                if self._responseEvent.wait(timeout):
-                    self._responseEvent = None
-                    self._expectResponseTermSeq = False
-                    return self._response
-                else: # Response timed out
-                    self._responseEvent = None
-                    self._expectResponseTermSeq = False
-                    if len(self._response) > 0:
-                        # Add the partial response to the timeout exception
-                        raise TimeoutException(self._response)
-                    else:
-                        raise TimeoutException()
+                responseEvent = threading.Event()
+                with self._responseLock:
+                    if expectedResponseTermSeq:
+                        self._expectResponseTermSeq = list(expectedResponseTermSeq) 
+                    self._response = []
+                    self._responseEvent = responseEvent
+                try:
+                    self.serial.write(data)
+                    responseEvent.wait(timeout)
+                finally:
+                    # Nothing waits for the response anymore (also if writing failed)
+                    with self._responseLock:
+                        response = self._response
+                        self._responseEvent = None
+                        self._expectResponseTermSeq = None
+                if responseEvent.is_set():
+                    return response
+                # Response timed out
+                if len(response) > 0:
+                    # Add the partial response to the timeout exception
+                    raise TimeoutException(response)
+                else:
+                    raise TimeoutException()
             else:                
                 self.serial.write(data)
-- 
2.43.0


From 5d70ee07d41b1e9b2ece9fb166ec70d80c26924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:24 +0000
Subject: [PATCH 15/44] fix: allow close() in callbacks and before connect(),
 and reconnecting at once

close() raised a RuntimeError when called by the fatal error handler (it
tried to join the read thread itself) and an AttributeError when not
connected; a failing read thread could close the port of a connection
established after it had reported the failure, and the next connection
delivered incomplete notifications of the previous one.
---
 gsmmodem/serial_comms.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index f04e156..90f873b 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -29,6 +29,8 @@ class SerialComms(object):
         :type fatalErrorCallbackFunc: func
         """     
         self.alive = False
+        self.serial = None
+        self.rxThread = None
         self.port = port
         self.baudrate = baudrate
         
@@ -47,6 +49,7 @@ class SerialComms(object):
     def connect(self):
         """ Connects to the device and starts the read thread """                
         self.serial = serial.Serial(port=self.port, baudrate=self.baudrate, timeout=self.timeout)
+        self._notification = [] # nothing read from a previous connection is of interest anymore
         # Start read thread
         self.alive = True 
         self.rxThread = threading.Thread(target=self._readLoop)
@@ -56,8 +59,10 @@ class SerialComms(object):
     def close(self):
         """ Stops the read thread, waits for it to exit cleanly, then closes the underlying serial port """        
         self.alive = False
-        self.rxThread.join()
-        self.serial.close()
+        if self.rxThread != None and self.rxThread != threading.current_thread(): # may be called by a callback
+            self.rxThread.join()
+        if self.serial != None:
+            self.serial.close()
 
     def _handleLineRead(self, line):
         #print 'sc.hlineread:',line
@@ -93,12 +98,13 @@ class SerialComms(object):
         
         Reads lines from the connected device
         """
+        port = self.serial
         try:
             readTermSeq = list(self.RX_EOL_SEQ)
             readTermLen = len(readTermSeq)
             rxBuffer = []
             while self.alive:
-                data = self.serial.read(1)
+                data = port.read(1)
                 if data != '': # check for timeout
                     #print >> sys.stderr, ' RX:', data,'({0})'.format(ord(data))
                     rxBuffer.append(data)
@@ -122,7 +128,7 @@ class SerialComms(object):
         except serial.SerialException as e:
             self.alive = False
             try:
-                self.serial.close()
+                port.close() # not self.serial - it may have been connected again already
             except Exception: #pragma: no cover
                 pass
             # Notify the fatal error handler
-- 
2.43.0


From b42726a8ca956b024beda83d6520b764394c72c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:55 +0000
Subject: [PATCH 16/44] fix: keep notifications apart from the responses to
 commands

---
 gsmmodem/modem.py        | 38 +++++++++++++++++++++++++++++++++++++-
 gsmmodem/serial_comms.py | 18 ++++++++++++++----
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e468f34..cdd9228 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -129,6 +129,13 @@ class GsmModem(SerialComms):
     CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d),"(.*?)",(\d+)', re.DOTALL)
     # Used for parsing SMS status reports
     CDSI_REGEX = re.compile(r'\+CDSI:\s*"([^"]+)",(\d+)$')
+    # Used for detecting incoming call indications
+    RING_REGEX = re.compile(r'^(RING|\+CRING\b.*)$')
+    # Used for detecting lines that only ever occur as (start of) an unsolicited notification
+    UNSOLICITED_REGEX = re.compile(r'^(RING|\+CRING: .*|\+CLIP: ".*|\+C[MD][TS]I:\s*"[^"]+",\d+)$')
+    # Used for detecting USSD notifications, and the end of their (possibly multi-line) messages
+    CUSD_START_REGEX = re.compile(r'^\+CUSD:\s*\d,"')
+    CUSD_END_REGEX = re.compile(r'",\d+$')
     
     def __init__(self, port, baudrate=115200, incomingCallCallbackFunc=None, smsReceivedCallbackFunc=None, smsStatusReportCallback=None):
         super(GsmModem, self).__init__(port, baudrate, notifyCallbackFunc=self._handleModemNotification)
@@ -145,6 +152,7 @@ class GsmModem(SerialComms):
         self.sentSms = weakref.WeakValueDictionary()
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
+        self._ussdCommandPending = False # Whether or not the command being sent is a USSD request (its response may contain the reply)
         self._smsStatusReportEvent = None # threading.Event
         self._dialEvent = None # threading.Event
         self._dialResponse = None # gsmmodem.modem.Call
@@ -679,7 +687,12 @@ class GsmModem(SerialComms):
         """
         self._ussdSessionEvent = threading.Event()
         try:
-            cusdResponse = self.write('AT+CUSD=1,"{0}",15'.format(ussdString), timeout=responseTimeout) # Should respond with "OK"
+            with self._txLock:
+                self._ussdCommandPending = True
+                try:
+                    cusdResponse = self.write('AT+CUSD=1,"{0}",15'.format(ussdString), timeout=responseTimeout) # Should respond with "OK"
+                finally:
+                    self._ussdCommandPending = False
         except Exception:
             self._ussdSessionEvent = None # Cancel the thread sync lock
             raise
@@ -844,6 +857,29 @@ class GsmModem(SerialComms):
                     self.deleteStoredSms(msgIndex)
         return messages
 
+    def _isUnsolicited(self, line):
+        if self._openUssdNotification() >= 0 and not self.RESPONSE_TERM.match(line):
+            return True # Continuation of a multi-line USSD message
+        if len(self._response) > 0:
+            return False # A response is never interrupted
+        if self.CUSD_START_REGEX.match(line):
+            return not self._ussdCommandPending
+        if self.UNSOLICITED_REGEX.match(line):
+            return True
+        return not self.RESPONSE_TERM.match(line) and any(regex.match(line) for regex, _ in self._callStatusUpdates)
+
+    def _openUssdNotification(self):
+        """ :return: the index of the notification line that starts a USSD message that is still incomplete, or -1 """
+        for i in xrange(len(self._notification) - 1, -1, -1):
+            if self.CUSD_START_REGEX.match(self._notification[i]):
+                return -1 if any(self.CUSD_END_REGEX.search(line) for line in self._notification[i:]) else i
+        return -1
+
+    def _isNotificationIncomplete(self):
+        if self._callingLineIdentification and self.RING_REGEX.match(self._notification[-1]):
+            return True # The caller ID follows
+        return self._openUssdNotification() >= 0
+
     def _handleModemNotification(self, lines):
         """ Handler for unsolicited notifications from the modem
         
diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 90f873b..786e301 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -68,6 +68,8 @@ class SerialComms(object):
         #print 'sc.hlineread:',line
         with self._responseLock:
             responseWanted = self._responseEvent != None and not self._responseEvent.is_set()
+            if responseWanted and self._isUnsolicited(line):
+                responseWanted = False # not part of the response; it just happened to arrive first
             if responseWanted:
                 # A response event has been set up (another thread is waiting for this response)
                 self._response.append(line)
@@ -79,10 +81,18 @@ class SerialComms(object):
         if not responseWanted:
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
-            self._flushNotification()
+        self._flushNotification()
 
-    def _flushNotification(self):
-        if len(self._notification) > 0 and self.serial.inWaiting() == 0:
+    def _isUnsolicited(self, line):
+        """ Whether or not a line read while waiting for the response to a command is a notification nonetheless (hook for subclasses) """
+        return False
+
+    def _isNotificationIncomplete(self):
+        """ Whether or not more lines are expected for the notification being read (hook for subclasses) """
+        return False
+
+    def _flushNotification(self, timedOut=False):
+        if len(self._notification) > 0 and self.serial.inWaiting() == 0 and (timedOut or not self._isNotificationIncomplete()):
             # No more chars on the way for this notification - notify higher-level callback
             #print 'notification:', self._notification
             self.log.debug('notification: %s', self._notification)
@@ -124,7 +134,7 @@ class SerialComms(object):
                         self._handleLineRead(line)
                 else:
                     #' <RX timeout>'
-                    self._flushNotification() # whatever was on the way for this notification did not complete a line
+                    self._flushNotification(timedOut=True) # whatever was on the way for this notification did not complete a line
         except serial.SerialException as e:
             self.alive = False
             try:
-- 
2.43.0


From 5bd146c14e3a9b50d6911246385866daa3a24035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:51 +0000
Subject: [PATCH 17/44] fix: handle every event of a notification, and in order

---
 gsmmodem/modem.py | 82 +++++++++++++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index cdd9228..8755ec8 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -883,35 +883,30 @@ class GsmModem(SerialComms):
     def _handleModemNotification(self, lines):
         """ Handler for unsolicited notifications from the modem
         
-        This method simply spawns a separate thread to handle the actual notification
-        (in order to release the read thread so that the handlers are able to write back to the modem, etc)
+        The lines may contain several notifications. Whatever may write back to the modem or call user code is done in
+        separate threads (in order to release the read thread); the rest is done here, which retains the order of the notifications.
          
         :param lines The lines that were read
         """
-        threading.Thread(target=self.__threadedHandleModemNotification, kwargs={'lines': lines}).start()
-    
-    def __threadedHandleModemNotification(self, lines):
-        """ Implementation of _handleModemNotification() to be run in a separate thread
-        
-        :param lines The lines that were read
-        """
-        for line in lines:
-            if 'RING' in line:
+        lines = list(lines)
+        while len(lines) > 0:
+            line = lines.pop(0)
+            if self.RING_REGEX.match(line):
                 # Incoming call (or existing call is ringing)
-                self._handleIncomingCall(lines)
-                return
+                callLines = [line]
+                if len(lines) > 0 and lines[0].startswith('+CLIP'):
+                    callLines.append(lines.pop(0))
+                self._handleIncomingCall(callLines)
             elif line.startswith('+CMTI'):
                 # New SMS message indication
-                self._handleSmsReceived(line)
-                return
+                self._startHandlerThread(self._handleSmsReceived, line)
             elif line.startswith('+CUSD'):
                 # USSD notification - either a response or a MT-USSD ("push USSD") message
-                self._handleUssd(lines)
-                return
+                lines.insert(0, line)
+                self._handleUssd(self._takeUssdLines(lines))
             elif line.startswith('+CDSI'):
                 # SMS status report
-                self._handleSmsStatusReport(line)
-                return
+                self._startHandlerThread(self._handleSmsStatusReport, line)
             else:
                 # Check for call status updates            
                 for updateRegex, handlerFunc in self._callStatusUpdates:
@@ -919,13 +914,39 @@ class GsmModem(SerialComms):
                     if match:
                         # Handle the update
                         handlerFunc(match)
-                        return
-        # If this is reached, the notification wasn't handled
-        self.log.debug('Unhandled unsolicited modem notification: %s', lines)    
+                        break
+                else:
+                    self.log.debug('Unhandled unsolicited modem notification: %s', line)
+
+    def _takeUssdLines(self, lines):
+        """ Removes and returns the consecutive USSD notifications (and the rest of their multi-line messages) that lines start with """
+        count = 0
+        while count < len(lines) and lines[count].startswith('+CUSD'):
+            count += 1
+            if self.CUSD_START_REGEX.match(lines[count - 1]) and not self.CUSD_END_REGEX.search(lines[count - 1]):
+                for i in xrange(count, len(lines)):
+                    if lines[i].startswith('+CUSD'):
+                        break # incomplete message
+                    elif self.CUSD_END_REGEX.search(lines[i]):
+                        count = i + 1
+                        break
+        ussdLines = lines[:count]
+        del lines[:count]
+        return ussdLines
+
+    def _startHandlerThread(self, handlerFunc, *args):
+        """ Runs a notification handler (or user callback) in a separate thread """
+        def _runHandler():
+            try:
+                handlerFunc(*args)
+            except Exception:
+                self.log.exception('Error while handling modem notification')
+        threading.Thread(target=_runHandler).start()
     
     def _handleIncomingCall(self, lines):
         self.log.debug('Handling incoming call')
         ringLine = lines.pop(0)
+        reenableCrc = False
         if self._extendedIncomingCallIndication:
             try:
                 callType = ringLine.split(' ', 1)[1]
@@ -933,12 +954,7 @@ class GsmModem(SerialComms):
                 # Some external 3G scripts modify incoming call indication settings (issue #18)
                 self.log.debug('Extended incoming call indication format changed externally; re-enabling...')
                 callType = None
-                try:
-                    # Re-enable extended format of incoming indication (optional)
-                    self.write('AT+CRC=1') 
-                except CommandError:
-                    self.log.warn('Extended incoming call indication format changed externally; unable to re-enable')
-                    self._extendedIncomingCallIndication = False
+                reenableCrc = True
         else:
             callType = None
         if self._callingLineIdentification and len(lines) > 0:
@@ -966,6 +982,16 @@ class GsmModem(SerialComms):
             callId = len(self.activeCalls) + 1;
             call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
             self.activeCalls[callId] = call
+        self._startHandlerThread(self._notifyIncomingCall, call, reenableCrc)
+
+    def _notifyIncomingCall(self, call, reenableCrc):
+        if reenableCrc:
+            try:
+                # Re-enable extended format of incoming indication (optional)
+                self.write('AT+CRC=1') 
+            except (CommandError, TimeoutException):
+                self.log.warning('Extended incoming call indication format changed externally; unable to re-enable')
+                self._extendedIncomingCallIndication = False
         self.incomingCallCallback(call)    
     
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
-- 
2.43.0


From ba61670e33f2c7045a279b5bf56747ae3d4ba1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:00 +0000
Subject: [PATCH 18/44] fix: keep the states of concurrent calls consistent

Call IDs could collide, rings could be attributed to the wrong call, repeated
or unknown call updates raised exceptions or extra callbacks, hanging up could
remove another call, and ^CEND with a multi-digit duration was not recognized.
---
 gsmmodem/modem.py | 99 +++++++++++++++++++++++++++++------------------
 1 file changed, 62 insertions(+), 37 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 8755ec8..cc67f3c 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -148,6 +148,7 @@ class GsmModem(SerialComms):
         self._extendedIncomingCallIndication = False
         # Current active calls (ringing and/or answered), key is the unique call ID (not the remote number)
         self.activeCalls = {}
+        self._callsLock = threading.RLock() # Protects activeCalls and the state of the calls
         # Dict containing sent SMS messages (for auto-tracking their delivery status)
         self.sentSms = weakref.WeakValueDictionary()
         self._ussdSessionEvent = None # threading.Event
@@ -261,7 +262,7 @@ class GsmModem(SerialComms):
             self.log.info('Loading Huawei call state update table')
             self._callStatusUpdates = ((re.compile(r'^\^ORIG:(\d),(\d)$'), self._handleCallInitiated),
                                        (re.compile(r'^\^CONN:(\d),(\d)$'), self._handleCallAnswered),
-                                       (re.compile(r'^\^CEND:(\d),(\d),(\d)+,(\d)+$'), self._handleCallEnded))
+                                       (re.compile(r'^\^CEND:(\d),(\d+),(\d+)(?:,(\d+))?$'), self._handleCallEnded))
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
             Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
@@ -974,14 +975,16 @@ class GsmModem(SerialComms):
             callerNumber = ton = callerName = None
         
         call = None
-        for activeCall in dictValuesIter(self.activeCalls):
-            if activeCall.number == callerNumber:
-                call = activeCall
-                call.ringCount += 1
-        if call == None:
-            callId = len(self.activeCalls) + 1;
-            call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
-            self.activeCalls[callId] = call
+        with self._callsLock:
+            for activeCall in dictValuesIter(self.activeCalls):
+                if isinstance(activeCall, IncomingCall) and activeCall.ringing and callerNumber in (activeCall.number, None):
+                    call = activeCall
+                    call.ringCount += 1
+                    break
+            if call == None:
+                callId = self._unusedCallId()
+                call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
+                self.activeCalls[callId] = call
         self._startHandlerThread(self._notifyIncomingCall, call, reenableCrc)
 
     def _notifyIncomingCall(self, call, reenableCrc):
@@ -994,6 +997,18 @@ class GsmModem(SerialComms):
                 self._extendedIncomingCallIndication = False
         self.incomingCallCallback(call)    
     
+    def _unusedCallId(self):
+        """ :return: the lowest call ID that is not in use """
+        callId = 1
+        while callId in self.activeCalls:
+            callId += 1
+        return callId
+
+    def _updateCall(self, call, answered, active=True):
+        """ Changes the state of a call because of a remote event, and notifies the user if it did change """
+        if call._changeState(answered, active) and call._callStatusUpdateCallbackFunc:
+            self._startHandlerThread(call._callStatusUpdateCallbackFunc, call)
+
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
         if self._dialEvent:
@@ -1014,16 +1029,16 @@ class GsmModem(SerialComms):
             groups = regexMatch.groups()
             if len(groups) > 1:
                 callId = int(groups[0])
-                self.activeCalls[callId].answered = True
             else:
                 # Call ID not available for this notificition - check for the first outgoing call that has not been answered
-                for call in dictValuesIter(self.activeCalls):
-                    if call.answered == False and type(call) == Call:
-                        call.answered = True
-                        return
-        else:
-            # Use supplied values
-            self.activeCalls[callId].answered = True
+                with self._callsLock:
+                    for call in dictValuesIter(self.activeCalls):
+                        if call.answered == False and type(call) == Call:
+                            callId = call.id
+                            break
+        with self._callsLock:
+            if callId in self.activeCalls:
+                self._updateCall(self.activeCalls[callId], answered=True)
 
     def _handleCallEnded(self, regexMatch, callId=None, filterUnanswered=False):
         if regexMatch:
@@ -1032,15 +1047,15 @@ class GsmModem(SerialComms):
                 callId = int(groups[0])
             else:
                 # Call ID not available for this notification - check for the first outgoing call that is active
-                for call in dictValuesIter(self.activeCalls):
-                    if type(call) == Call:
-                        if not filterUnanswered or (filterUnanswered == True and call.answered == False):
-                            callId = call.id
-                            break
-        if callId and callId in self.activeCalls:
-            self.activeCalls[callId].answered = False
-            self.activeCalls[callId].active = False
-            del self.activeCalls[callId]
+                with self._callsLock:
+                    for call in dictValuesIter(self.activeCalls):
+                        if type(call) == Call:
+                            if not filterUnanswered or (filterUnanswered == True and call.answered == False):
+                                callId = call.id
+                                break
+        with self._callsLock:
+            if callId in self.activeCalls:
+                self._updateCall(self.activeCalls[callId], answered=False, active=False)
 
     def _handleCallRejected(self, regexMatch, callId=None):
         """ Handler for rejected (unanswered calls being ended)
@@ -1299,6 +1314,20 @@ class Call(object):
         self._answered = answered
         if self._callStatusUpdateCallbackFunc:
             self._callStatusUpdateCallbackFunc(self)
+
+    def _changeState(self, answered, active=True):
+        """ Changes the state of this call, unless it has already ended
+
+        :return: True if the state changed
+        """
+        with self._gsmModem._callsLock:
+            if not self.active or (active and answered == self._answered):
+                return False
+            self._answered = answered
+            self.active = active
+            if not active and self._gsmModem.activeCalls.get(self.id) is self:
+                del self._gsmModem.activeCalls[self.id]
+            return True
     
     def sendDtmfTone(self, tones):
         """ Send one or more DTMF tones to the remote party (only allowed for an answered call) 
@@ -1338,10 +1367,7 @@ class Call(object):
         """
         if self.active:
             self._gsmModem.write('ATH')
-            self.answered = False
-            self.active = False
-        if self.id in self._gsmModem.activeCalls:
-            del self._gsmModem.activeCalls[self.id]
+            self._changeState(answered=False, active=False)
 
 
 class IncomingCall(Call):
@@ -1357,7 +1383,7 @@ class IncomingCall(Call):
         :param callType: Type of the incoming call (VOICE, FAX, DATA, etc)
         """
         if type(callType) == str:
-            callType = self.CALL_TYPE_MAP[callType] 
+            callType = self.CALL_TYPE_MAP.get(callType, callType)
         super(IncomingCall, self).__init__(gsmModem, callId, callType, number)        
         # Type attribute of the incoming call
         self.ton = ton
@@ -1373,14 +1399,13 @@ class IncomingCall(Call):
         """
         if self.ringing:
             self._gsmModem.write('ATA')
-            self.ringing = False
-            self.answered = True
+            self._changeState(answered=True)
         return self    
 
-    def hangup(self):
-        """ End the phone call. """
-        self.ringing = False
-        super(IncomingCall, self).hangup()
+    def _changeState(self, answered, active=True):
+        with self._gsmModem._callsLock:
+            self.ringing = self.ringing and active and not answered
+            return super(IncomingCall, self)._changeState(answered, active)
 
 class Ussd(object):
     """ Unstructured Supplementary Service Data (USSD) message.
-- 
2.43.0


From 08b7128da04e68f828720365119d8457e9e544e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 19/44] fix: let dial() return or fail correctly under any
 timing of call updates

The call is registered when its start is reported (an answer or end reported
right afterwards was lost or raised a KeyError), a failed attempt leaves nothing
behind, the timeout covers the whole attempt, and the polling thread follows its
own call only.
---
 gsmmodem/modem.py | 160 +++++++++++++++++++++++-----------------------
 1 file changed, 80 insertions(+), 80 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index cc67f3c..09d9c36 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -157,6 +157,8 @@ class GsmModem(SerialComms):
         self._smsStatusReportEvent = None # threading.Event
         self._dialEvent = None # threading.Event
         self._dialResponse = None # gsmmodem.modem.Call
+        self._dialRequest = None # (number, callStatusUpdateCallbackFunc) of the call being dialed
+        self._dialLock = threading.Lock() # Only one call can be dialed at a time
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
         self._waitForCallInitUpdate = True # Flag that controls if we should wait for a ATD "call initiated" message
         self._callStatusUpdates = [] # populated during connect() - contains regexes and handlers for detecting/handling call status updates
@@ -292,7 +294,7 @@ class GsmModem(SerialComms):
             # Unknown modem - we do not know what its call updates look like. Use polling instead
             self.log.info('Unknown/generic modem type - will use polling for call state updates')
             self._mustPollCallStatus = True
-            self._pollCallStatusRegex = re.compile('^\+CLCC:\s+(\d+),(\d),(\d),(\d),([^,]),"([^,]*)",(\d+)$')
+            self._pollCallStatusRegex = re.compile(r'^\+CLCC:\s*(\d+),(\d),(\d),(\d),(\d)(,.*)?$')
             self._waitForAtdResponse = True # Most modems return OK immediately after issuing ATD
 
         # General meta-information setup
@@ -723,36 +725,39 @@ class GsmModem(SerialComms):
         :return: The outgoing call
         :rtype: gsmmodem.modem.Call
         """
-        if self._waitForCallInitUpdate:
+        with self._dialLock:
+            return self._dial(number, timeout, callStatusUpdateCallbackFunc)
+
+    def _dial(self, number, timeout, callStatusUpdateCallbackFunc):
+        """ Implementation of dial() """
+        startTime = time.time()
+        dialEvent = threading.Event()
+        with self._callsLock:
+            self._dialRequest = number, callStatusUpdateCallbackFunc
+            self._dialResponse = None
+            self._dialEvent = dialEvent
+            if not self._waitForCallInitUpdate:
+                # Don't wait for a call init update - base the call ID on the active calls
+                self.log.debug("Not waiting for outgoing call init update message")
+                self._handleCallInitiated(None, self._unusedCallId(), 0) # Assume voice
+        try:
+            self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
+            if self._mustPollCallStatus:
+                # Fake a call notification by polling call status until the status indicates that the call is being dialed
+                threading.Thread(target=self._pollCallStatus, args=(dialEvent,)).start()
             # Wait for the "call originated" notification message
-            self._dialEvent = threading.Event()
-            try:
-                self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
-            except Exception:
+            dialEvent.wait(max(0, timeout - (time.time() - startTime)))
+        except Exception:
+            with self._callsLock:
+                if self._dialResponse != None: # The attempt failed; there is no call
+                    self._dialResponse._changeState(answered=False, active=False)
+            raise
+        finally:
+            with self._callsLock:
                 self._dialEvent = None # Cancel the thread sync lock
-                raise
-        else:
-            # Don't wait for a call init update - base the call ID on the number of active calls
-            self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
-            self.log.debug("Not waiting for outgoing call init update message")
-            callId = len(self.activeCalls) + 1
-            callType = 0 # Assume voice
-            call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
-            self.activeCalls[callId] = call
-            return call
-
-        if self._mustPollCallStatus:
-            # Fake a call notification by polling call status until the status indicates that the call is being dialed
-            threading.Thread(target=self._pollCallStatus, kwargs={'expectedState': 0, 'timeout': timeout}).start()
-
-        if self._dialEvent.wait(timeout):
-            self._dialEvent = None
-            callId, callType = self._dialResponse
-            call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
-            self.activeCalls[callId] = call
-            return call
+        if dialEvent.is_set():
+            return self._dialResponse
         else: # Call establishing timed out
-            self._dialEvent = None
             raise TimeoutException()
 
     def processStoredSms(self, unreadOnly=False):
@@ -1011,17 +1016,20 @@ class GsmModem(SerialComms):
 
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
-        if self._dialEvent:
-            if regexMatch:
-                groups = regexMatch.groups()
-                # Set self._dialReponse to (callId, callType)
-                if len(groups) >= 2:
-                    self._dialResponse = (int(groups[0]) , int(groups[1]))
-                else:
-                    self._dialResponse = (int(groups[0]), 1) # assume call type: VOICE
-            else:
-                self._dialResponse = callId, callType
-            self._dialEvent.set()
+        with self._callsLock:
+            if self._dialEvent and not self._dialEvent.is_set():
+                if regexMatch:
+                    groups = regexMatch.groups()
+                    callId = int(groups[0])
+                    # Otherwise, assume call type: VOICE
+                    if len(groups) >= 2:
+                        callType = int(groups[1])
+                if callId in self.activeCalls: # The end of that call was missed
+                    self._updateCall(self.activeCalls[callId], answered=False, active=False)
+                number, callStatusUpdateCallbackFunc = self._dialRequest
+                self._dialResponse = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
+                self.activeCalls[callId] = self._dialResponse
+                self._dialEvent.set()
                 
     def _handleCallAnswered(self, regexMatch, callId=None):
         """ Handler for "outgoing call answered" event notification line """
@@ -1233,52 +1241,44 @@ class GsmModem(SerialComms):
         """ Does nothing """
         self.log.debug('called with args: {0}'.format(args))
     
-    def _pollCallStatus(self, expectedState, callId=None, timeout=None):
-        """ Poll the status of outgoing calls.    
+    def _pollCallStatus(self, dialEvent):
+        """ Poll the status of an outgoing call until it has ended (or until dial() stops waiting for it to be initiated)
         This is used for modems that do not have a known set of call status update notifications.
         
-        :param expectedState: The internal state we are waiting for. 0 == initiated, 1 == answered, 2 = hangup
-        :type expectedState: int
-        
-        :raise TimeoutException: If a timeout was specified, and has occurred
+        :param dialEvent: The event that identifies the dial() call
         """
-        callDone = False
-        timeLeft = timeout or 999999
-        while self.alive and not callDone and timeLeft > 0:
+        call = None # The call, once it has been initiated
+        while True:
             time.sleep(0.5)
-            if expectedState == 0: # Only call initializing can timeout
-                timeLeft -= 0.5
+            if not self.alive or (self._dialEvent is not dialEvent if call == None else not call.active):
+                return # Nothing to poll anymore
             try:
-                clcc = self._pollCallStatusRegex.match(self.write('AT+CLCC')[0])
-            except TimeoutException as timeout:
-                # Can happend if the call was ended during our time.sleep() call
-                clcc = None
-            if clcc:
-                direction = int(clcc.group(2))
-                if direction == 0: # Outgoing call
-                    # Determine call state
-                    stat = int(clcc.group(3))
-                    if expectedState == 0: # waiting for call initiated
-                        if stat == 2 or stat == 3: # Dialing or ringing ("alerting")                            
-                            callId = int(clcc.group(1))
-                            callType = int(clcc.group(4))
-                            self._handleCallInitiated(None, callId, callType) # if self_dialEvent is None, this does nothing
-                            expectedState = 1 # Now wait for call answer
-                    elif expectedState == 1: # waiting for call to be answered
-                        if stat == 0: # Call active
-                            callId = int(clcc.group(1))
-                            self._handleCallAnswered(None, callId)
-                            expectedState = 2 # Now wait for call hangup                            
-            elif expectedState == 2 : # waiting for remote hangup
-                # Since there was no +CLCC response, the call is no longer active
-                callDone = True
-                self._handleCallEnded(None, callId=callId)
-            elif expectedState == 1: # waiting for call to be answered
-                # Call was rejected
-                callDone = True
-                self._handleCallRejected(None, callId=callId)
-        if timeLeft <= 0:
-            raise TimeoutException()
+                response = self.write('AT+CLCC')
+            except (TimeoutException, CommandError):
+                continue # Nothing known; try again
+            except Exception:
+                if self.alive:
+                    raise
+                return # Connection closed in the meantime
+            callFound = False
+            for clcc in filter(None, [self._pollCallStatusRegex.match(line) for line in response]):
+                callId = int(clcc.group(1))
+                if int(clcc.group(2)) != 0:
+                    continue # Not an outgoing call
+                # Determine call state
+                stat = int(clcc.group(3))
+                if call == None: # waiting for call initiated
+                    with self._callsLock:
+                        if stat in (0, 2, 3) and type(self.activeCalls.get(callId)) != Call and self._dialEvent is dialEvent: # Active, dialing or ringing ("alerting")
+                            self._handleCallInitiated(None, callId, int(clcc.group(4)))
+                            call = self._dialResponse
+                if call != None and callId == call.id:
+                    callFound = True
+                    if stat == 0: # Call active
+                        self._updateCall(call, answered=True)
+            if call != None and not callFound:
+                # Since there was no +CLCC response for it, the call is no longer active
+                self._updateCall(call, answered=False, active=False)
 
 
 class Call(object):
-- 
2.43.0


From fef8830cf868c8db62b7f72eee6aca2063b7cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:48 +0000
Subject: [PATCH 20/44] fix: never read or delete messages in another memory
 than intended

Selecting a memory and reading, listing or deleting messages in it could be
interrupted by other threads (including the handlers of new messages). Also,
a received message is no longer lost if it cannot be deleted.
---
 gsmmodem/modem.py | 55 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 09d9c36..13bb5c4 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -535,22 +535,26 @@ class GsmModem(SerialComms):
     def smsTextMode(self, textMode):
         """ Set to True for the modem to use text mode for SMS, or False for it to use PDU mode """
         if textMode != self._smsTextMode:
-            if self.alive:
-                self.write('AT+CMGF={0}'.format(1 if textMode else 0))
-            self._smsTextMode = textMode
-            self._compileSmsRegexes()
+            with self._txLock:
+                if self.alive:
+                    self.write('AT+CMGF={0}'.format(1 if textMode else 0))
+                self._smsTextMode = textMode
+                self._compileSmsRegexes()
     
     def _setSmsMemory(self, readDelete=None, write=None):
         """ Set the current SMS memory to use for read/delete/write operations """
         # Switch to the correct memory type if required
         if write != None and write != self._smsMemWrite:
-            self.write()
             readDel = readDelete or self._smsMemReadDelete
             self.write('AT+CPMS="{0}","{1}"'.format(readDel, write))
             self._smsMemReadDelete = readDel
             self._smsMemWrite = write
         elif readDelete != None and readDelete != self._smsMemReadDelete:
-            self.write('AT+CPMS="{0}"'.format(readDelete))
+            try:
+                self.write('AT+CPMS="{0}"'.format(readDelete))
+            except TimeoutException:
+                self._smsMemReadDelete = None # Unknown
+                raise
             self._smsMemReadDelete = readDelete
 
     def _compileSmsRegexes(self):
@@ -795,6 +799,11 @@ class GsmModem(SerialComms):
         :return: A list of Sms objects containing the messages read
         :rtype: list
         """
+        with self._txLock: # The message memory must not be changed in the meantime
+            return self._listStoredSms(status, memory, delete)
+
+    def _listStoredSms(self, status, memory, delete):
+        """ Implementation of listStoredSms() """
         self._setSmsMemory(readDelete=memory)
         messages = []
         delMessages = set()
@@ -1080,9 +1089,18 @@ class GsmModem(SerialComms):
         if cmtiMatch:
             msgMemory = cmtiMatch.group(1)
             msgIndex = cmtiMatch.group(2)
-            sms = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            sms = self._readAndDeleteStoredSms(msgIndex, msgMemory)
             self.smsReceivedCallback(sms)
+
+    def _readAndDeleteStoredSms(self, index, memory):
+        """ Reads and returns the SMS message at the specified index, and deletes it from the specified memory """
+        with self._txLock: # The message memory must not be changed in the meantime
+            sms = self.readStoredSms(index, memory)
+            try:
+                self.deleteStoredSms(index, memory)
+            except (CommandError, TimeoutException) as e:
+                self.log.warning('Unable to delete SMS message %s from memory "%s": %s', index, memory, e)
+        return sms
     
     def _handleSmsStatusReport(self, notificationLine):
         """ Handler for SMS status reports """
@@ -1091,8 +1109,7 @@ class GsmModem(SerialComms):
         if cdsiMatch:
             msgMemory = cdsiMatch.group(1)
             msgIndex = cdsiMatch.group(2)
-            report = self.readStoredSms(msgIndex, msgMemory)
-            self.deleteStoredSms(msgIndex)
+            report = self._readAndDeleteStoredSms(msgIndex, msgMemory)
             # Update sent SMS status if possible            
             if report.reference in self.sentSms:                
                 self.sentSms[report.reference].report = report
@@ -1117,10 +1134,12 @@ class GsmModem(SerialComms):
         :rtype: subclass of gsmmodem.modem.Sms (either ReceivedSms or StatusReport)
         """
         # Switch to the correct memory type if required
-        self._setSmsMemory(readDelete=memory)
-        msgData = self.write('AT+CMGR={0}'.format(index))
+        with self._txLock:
+            self._setSmsMemory(readDelete=memory)
+            msgData = self.write('AT+CMGR={0}'.format(index))
+            textMode = self._smsTextMode
         # Parse meta information
-        if self._smsTextMode:
+        if textMode:
             cmgrMatch = self.CMGR_SM_DELIVER_REGEX_TEXT.match(msgData[0])
             if cmgrMatch:
                 msgStatus, number, msgTime = cmgrMatch.groups()
@@ -1167,8 +1186,9 @@ class GsmModem(SerialComms):
         
         :raise CommandError: if unable to delete the stored message
         """
-        self._setSmsMemory(readDelete=memory)
-        self.write('AT+CMGD={0},0'.format(index))
+        with self._txLock:
+            self._setSmsMemory(readDelete=memory)
+            self.write('AT+CMGD={0},0'.format(index))
     
     def deleteMultipleStoredSms(self, delFlag=4, memory=None):
         """ Deletes all SMS messages that have the specified read status.
@@ -1191,8 +1211,9 @@ class GsmModem(SerialComms):
         :raise CommandError: if unable to delete the stored messages
         """
         if 0 < delFlag <= 4:
-            self._setSmsMemory(readDelete=memory)
-            self.write('AT+CMGD=1,{0}'.format(delFlag))
+            with self._txLock:
+                self._setSmsMemory(readDelete=memory)
+                self.write('AT+CMGD=1,{0}'.format(delFlag))
         else:
             raise ValueError('"delFlag" must be in range [1,4]')
     
-- 
2.43.0


From 7ec1bc1da53310300790e43da834572a88f28f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 21/44] fix: list all stored messages, and delete the listed
 ones only

An undecodable or unsent message swallowed or corrupted its neighbours or made
the operation fail; empty messages and (in text mode) status reports were left
out; processing lost messages if one could not be deleted.
---
 gsmmodem/modem.py | 126 ++++++++++++++++++++++++++--------------------
 1 file changed, 72 insertions(+), 54 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 13bb5c4..bac19cb 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -561,7 +561,7 @@ class GsmModem(SerialComms):
         """ Compiles regular expression used for parsing SMS messages based on current mode """
         if self._smsTextMode:
             if self.CMGR_SM_DELIVER_REGEX_TEXT == None:
-                self.CMGR_SM_DELIVER_REGEX_TEXT = re.compile(r'^\+CMGR: "([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
+                self.CMGR_SM_DELIVER_REGEX_TEXT = re.compile(r'^\+CMGR: "([^"]+)","([^"]*)",(?:"[^"]*"|[^,]*),"([^"]+)"$')
                 self.CMGR_SM_REPORT_REGEXT_TEXT = re.compile(r'^\+CMGR: ([^,]*),\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
         elif self.CMGR_REGEX_PDU == None:
             self.CMGR_REGEX_PDU = re.compile(r'^\+CMGR: (\d*),"{0,1}([^"]*)"{0,1},(\d+)$')
@@ -780,8 +780,14 @@ class GsmModem(SerialComms):
         if not unreadOnly:
             states.insert(0, Sms.STATUS_RECEIVED_READ)
         for msgStatus in states:
-            messages = self.listStoredSms(status=msgStatus, delete=True)
-            for sms in messages:
+            with self._txLock:
+                messages, _ = self._readStoredSmsList(msgStatus, None)
+                for msgIndex, sms in messages:
+                    try:
+                        self.deleteStoredSms(msgIndex)
+                    except (CommandError, TimeoutException) as e:
+                        self.log.warning('Unable to delete SMS message %d: %s', msgIndex, e)
+            for msgIndex, sms in messages:
                 self.smsReceivedCallback(sms)
 
     def listStoredSms(self, status=Sms.STATUS_ALL, memory=None, delete=False):
@@ -800,15 +806,28 @@ class GsmModem(SerialComms):
         :rtype: list
         """
         with self._txLock: # The message memory must not be changed in the meantime
-            return self._listStoredSms(status, memory, delete)
+            messages, allRead = self._readStoredSmsList(status, memory)
+            if delete:
+                if status == Sms.STATUS_ALL and allRead:
+                    # Delete all messages
+                    self.deleteMultipleStoredSms()
+                else:
+                    for msgIndex, sms in messages:
+                        self.deleteStoredSms(msgIndex)
+            return [sms for msgIndex, sms in messages]
 
-    def _listStoredSms(self, status, memory, delete):
-        """ Implementation of listStoredSms() """
+    def _readStoredSmsList(self, status, memory):
+        """ Reads the received SMS messages and status reports currently stored on the device/SIM card
+
+        :return: a list of (index, Sms object) tuples, and whether or not these are all of the messages (i.e. nothing was discarded)
+        """
         self._setSmsMemory(readDelete=memory)
         messages = []
-        delMessages = set()
+        allRead = True
         if self._smsTextMode:
-            cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
+            cmglRegex = re.compile(r'^\+CMGL: (\d+),"({0})",(.*)$'.format('|'.join(Sms.TEXT_MODE_STATUS_MAP)))
+            deliverRegex = re.compile(r'^"([^"]*)",(?:"[^"]*"|[^,]*),"([^"]+)"')
+            reportRegex = re.compile(r'^\d+,(\d+),"{0,1}([^"]*)"{0,1},\d*,"([^"]+)","([^"]+)",(\d+)$')
             for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
                 if status == val:
                     statusStr = key
@@ -816,61 +835,60 @@ class GsmModem(SerialComms):
             else:
                 raise ValueError('Invalid status value: {0}'.format(status))
             result = self.write('AT+CMGL="{0}"'.format(statusStr))
-            msgLines = []
-            msgIndex = msgStatus = number = msgTime = None
-            for line in result:
-                cmglMatch = cmglRegex.match(line)                
+            sms = None
+            for line in result[:-1]:
+                cmglMatch = cmglRegex.match(line)
                 if cmglMatch:
-                    # New message; save old one if applicable
-                    if msgIndex != None and len(msgLines) > 0:
-                        msgText = '\n'.join(msgLines)
-                        msgLines = []
-                        messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-                        delMessages.add(int(msgIndex))
-                    msgIndex, msgStatus, number, msgTime = cmglMatch.groups()
-                    msgLines = []
-                else:
-                    if line != 'OK':
-                        msgLines.append(line)
-            if msgIndex != None and len(msgLines) > 0:
-                msgText = '\n'.join(msgLines)
-                msgLines = []
-                messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-                delMessages.add(int(msgIndex))
+                    # New message
+                    msgIndex, msgStatus, header = cmglMatch.groups()
+                    msgStatus = Sms.TEXT_MODE_STATUS_MAP[msgStatus]
+                    deliverMatch = deliverRegex.match(header)
+                    reportMatch = reportRegex.match(header)
+                    if deliverMatch:
+                        number, msgTime = deliverMatch.groups()
+                        sms = ReceivedSms(self, msgStatus, number, parseTextModeTimeStr(msgTime), None)
+                    elif reportMatch:
+                        reference, number, sentTime, deliverTime, deliverStatus = reportMatch.groups()
+                        sms = StatusReport(self, msgStatus, int(reference), number, parseTextModeTimeStr(sentTime), parseTextModeTimeStr(deliverTime), int(deliverStatus))
+                    else:
+                        self.log.debug('Discarding message from +CMGL response: %s', line)
+                        sms = None
+                        allRead = False
+                        continue
+                    messages.append((int(msgIndex), sms))
+                elif isinstance(sms, ReceivedSms):
+                    sms.text = line if sms.text == None else '\n'.join((sms.text, line))
+            for msgIndex, sms in messages:
+                if isinstance(sms, ReceivedSms) and sms.text == None:
+                    sms.text = ''
         else:
             cmglRegex = re.compile(r'^\+CMGL:\s*(\d+),\s*(\d+),.*$')
-            readPdu = False
+            msgIndex = None
             result = self.write('AT+CMGL={0}'.format(status))
-            for line in result:
-                if not readPdu:
-                    cmglMatch = cmglRegex.match(line)
-                    if cmglMatch:
-                        msgIndex = int(cmglMatch.group(1))
-                        msgStat = int(cmglMatch.group(2))
-                        readPdu = True
-                else:
+            for line in result[:-1]:
+                cmglMatch = cmglRegex.match(line)
+                if cmglMatch:
+                    if msgIndex != None:
+                        allRead = False # Nothing usable was read for the previous message
+                    msgIndex = int(cmglMatch.group(1))
+                    msgStat = int(cmglMatch.group(2))
+                elif msgIndex != None:
                     try:
                         smsDict = decodeSmsPdu(line)
                     except EncodingError:
                         self.log.debug('Discarding line from +CMGL response: %s', line)
+                        continue
+                    if smsDict['type'] == 'SMS-DELIVER':
+                        messages.append((msgIndex, ReceivedSms(self, msgStat, smsDict['number'], smsDict['time'], smsDict['text'], smsDict['smsc'])))
+                    elif smsDict['type'] == 'SMS-STATUS-REPORT':
+                        messages.append((msgIndex, StatusReport(self, msgStat, smsDict['reference'], smsDict['number'], smsDict['time'], smsDict['discharge'], smsDict['status'])))
                     else:
-                        if smsDict['type'] == 'SMS-DELIVER':
-                            sms = ReceivedSms(self, int(msgStat), smsDict['number'], smsDict['time'], smsDict['text'], smsDict['smsc'])
-                        elif smsDict['type'] == 'SMS-STATUS-REPORT':
-                            sms = StatusReport(self, int(msgStat), smsDict['reference'], smsDict['number'], smsDict['time'], smsDict['discharge'], smsDict['status'])
-                        else:
-                            raise CommandError('Invalid PDU type for readStoredSms(): {0}'.format(smsDict['type']))
-                        messages.append(sms)
-                        delMessages.add(msgIndex)
-                        readPdu = False
-        if delete:
-            if status == Sms.STATUS_ALL:
-                # Delete all messages
-                self.deleteMultipleStoredSms()
-            else:
-                for msgIndex in delMessages:
-                    self.deleteStoredSms(msgIndex)
-        return messages
+                        self.log.debug('Discarding message from +CMGL response: %s', smsDict)
+                        allRead = False
+                    msgIndex = None
+            if msgIndex != None:
+                allRead = False
+        return messages, allRead
 
     def _isUnsolicited(self, line):
         if self._openUssdNotification() >= 0 and not self.RESPONSE_TERM.match(line):
-- 
2.43.0


From 09e32bb95e366f886f56941ce5ad77c1d26dd132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:52 +0000
Subject: [PATCH 22/44] fix: submit messages atomically and match delivery
 reports to them

Other commands could get in between the parts of a message or be taken for its
data, a missing +CMGS response was not detected for all parts, message data was
re-sent as a command if the modem was busy, and any delivery report woke up any
waiting sender (or was missed if it arrived early).
---
 gsmmodem/modem.py | 80 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index bac19cb..5cc68ed 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -154,7 +154,7 @@ class GsmModem(SerialComms):
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
         self._ussdCommandPending = False # Whether or not the command being sent is a USSD request (its response may contain the reply)
-        self._smsStatusReportEvent = None # threading.Event
+        self._smsStatusReportEvents = {} # threading.Event objects of senders waiting for a status report, by message reference
         self._dialEvent = None # threading.Event
         self._dialResponse = None # gsmmodem.modem.Call
         self._dialRequest = None # (number, callStatusUpdateCallbackFunc) of the call being dialed
@@ -395,7 +395,7 @@ class GsmModem(SerialComms):
             else:
                 raise PinRequiredError('AT+CPIN')
                
-    def write(self, data, waitForResponse=True, timeout=5, parseError=True, writeTerm='\r', expectedResponseTermSeq=None):
+    def write(self, data, waitForResponse=True, timeout=5, parseError=True, writeTerm='\r', expectedResponseTermSeq=None, retryFunc=None):
         """ Write data to the modem.
 
         This method adds the ``\\r\\n`` end-of-line sequence to the data parameter, and
@@ -413,6 +413,8 @@ class GsmModem(SerialComms):
         :type writeTerm: str
         :param expectedResponseTermSeq: The expected terminating sequence that marks the end of the modem's response (defaults to ``\\r\\n``)
         :type expectedResponseTermSeq: str
+        :param retryFunc: Function to call (its result is returned) for retrying if the modem is busy (defaults to writing the same data again)
+        :type retryFunc: func
 
         :raise CommandError: if the command returns an error (only if parseError parameter is True)
         :raise TimeoutException: if no response to the command was received from the modem
@@ -439,7 +441,10 @@ class GsmModem(SerialComms):
                             # Retry the command after waiting a bit
                             self.log.debug('Device/SIM busy error detected; self._writeWait adjusted to %fs', self._writeWait)
                             time.sleep(self._writeWait)
-                            result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
+                            if retryFunc:
+                                result = retryFunc()
+                            else:
+                                result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
                             self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
                             if errorCode == 515:
                                 self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
@@ -654,32 +659,47 @@ class GsmModem(SerialComms):
         :raise CommandError: if an error occurs while attempting to send the message
         :raise TimeoutException: if the operation times out
         """
-        if self._smsTextMode:
-            self.write('AT+CMGS="{0}"'.format(destination), timeout=3, expectedResponseTermSeq='> ')
-            result = lineStartingWith('+CMGS:', self.write(text, timeout=15, writeTerm=chr(26)))
-        else:
-            pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
-            for pdu in pdus:
-                self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
-                result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
-        if result == None:
-            raise CommandError('Modem did not respond with +CMGS response')
-        reference = int(result[7:])
-        self._smsRef = reference + 1
-        if self._smsRef > 255:
-            self._smsRef = 0
-        sms = SentSms(destination, text, reference)
-        # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
-        self.sentSms[reference] = sms
+        with self._txLock: # Nothing else may be sent to the modem in the meantime
+            if self._smsTextMode:
+                reference = self._submitSms('AT+CMGS="{0}"'.format(destination), text)
+            else:
+                pdus = encodeSmsSubmitPdu(destination, text, reference=self._smsRef, sendFlash=sendFlash)
+                for pdu in pdus:
+                    reference = self._submitSms('AT+CMGS={0}'.format(pdu.tpduLength), str(pdu))
+            self._smsRef = reference + 1
+            if self._smsRef > 255:
+                self._smsRef = 0
+            sms = SentSms(destination, text, reference)
+            # Add a weak-referenced entry for this SMS (allows us to update the SMS state if a status report is received)
+            self.sentSms[reference] = sms
+            if waitForDeliveryReport:
+                statusReportEvent = self._smsStatusReportEvents[reference] = threading.Event()
         if waitForDeliveryReport:
-            self._smsStatusReportEvent = threading.Event()
-            if self._smsStatusReportEvent.wait(deliveryTimeout):
-                self._smsStatusReportEvent = None
-            else: # Response timed out
-                self._smsStatusReportEvent = None
+            if not statusReportEvent.wait(deliveryTimeout) and self._smsStatusReportEvents.pop(reference, None) != None:
+                # Response timed out (and the report is not just being handled)
                 raise TimeoutException()
         return sms
 
+    def _submitSms(self, command, data):
+        """ Sends a command that prompts for message data, followed by the data
+
+        :return: The reference of the submitted message
+        """
+        result = lineMatching(r'^\+CMGS:\s*(\d+)', self._writePrompted(command, data)) # example: +CMGS: xx
+        if result == None:
+            raise CommandError('Modem did not respond with +CMGS response')
+        return int(result.group(1))
+
+    def _writePrompted(self, command, data):
+        try:
+            self.write(command, timeout=3, expectedResponseTermSeq='> ')
+        except TimeoutException:
+            # The modem may still prompt for the data; it must not take the next command for it
+            self.write(chr(27), waitForResponse=False, writeTerm='')
+            raise
+        # If the modem is busy, the data has to be prompted for again
+        return self.write(data, timeout=15, writeTerm=chr(26), retryFunc=lambda: self._writePrompted(command, data))
+
     def sendUssd(self, ussdString, responseTimeout=15):
         """ Starts a USSD session by dialing the the specified USSD string, or \
         sends the specified string in the existing USSD session (if any)
@@ -1129,11 +1149,13 @@ class GsmModem(SerialComms):
             msgIndex = cdsiMatch.group(2)
             report = self._readAndDeleteStoredSms(msgIndex, msgMemory)
             # Update sent SMS status if possible            
-            if report.reference in self.sentSms:                
-                self.sentSms[report.reference].report = report
-            if self._smsStatusReportEvent:                
+            sms = self.sentSms.get(report.reference)
+            if sms != None:
+                sms.report = report
+            statusReportEvent = self._smsStatusReportEvents.pop(report.reference, None)
+            if statusReportEvent != None:
                 # A sendSms() call is waiting for this response - notify waiting thread
-                self._smsStatusReportEvent.set()
+                statusReportEvent.set()
             else:
                 # Nothing is waiting for this report directly - use callback
                 self.smsStatusReportCallback(report)
-- 
2.43.0


From 89f7a7bb7135f0ecc54eab7871a76635ea0d2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:55 +0000
Subject: [PATCH 23/44] fix: return the right USSD response and session state

A late or extra +CUSD notification could replace the response or raise an
exception, as could one without a message; concurrent requests were mixed up;
the session state was not updated when the session was closed.
---
 gsmmodem/modem.py | 87 +++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 40 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5cc68ed..61f94c7 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -126,7 +126,7 @@ class GsmModem(SerialComms):
     # Used for parsing SMS message reads (PDU mode)
     CMGR_REGEX_PDU = None
     # Used for parsing USSD event notifications
-    CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d),"(.*?)",(\d+)', re.DOTALL)
+    CUSD_REGEX = re.compile(r'\+CUSD:\s*(\d)(?:,"(.*?)",(\d+)|(?=\r\n|$))', re.DOTALL)
     # Used for parsing SMS status reports
     CDSI_REGEX = re.compile(r'\+CDSI:\s*"([^"]+)",(\d+)$')
     # Used for detecting incoming call indications
@@ -153,6 +153,7 @@ class GsmModem(SerialComms):
         self.sentSms = weakref.WeakValueDictionary()
         self._ussdSessionEvent = None # threading.Event
         self._ussdResponse = None # gsmmodem.modem.Ussd
+        self._ussdLock = threading.RLock() # There is only one USSD session at a time
         self._ussdCommandPending = False # Whether or not the command being sent is a USSD request (its response may contain the reply)
         self._smsStatusReportEvents = {} # threading.Event objects of senders waiting for a status report, by message reference
         self._dialEvent = None # threading.Event
@@ -712,31 +713,26 @@ class GsmModem(SerialComms):
         :return: The USSD response message/session (as a Ussd object)
         :rtype: gsmmodem.modem.Ussd
         """
-        self._ussdSessionEvent = threading.Event()
-        try:
-            with self._txLock:
-                self._ussdCommandPending = True
-                try:
-                    cusdResponse = self.write('AT+CUSD=1,"{0}",15'.format(ussdString), timeout=responseTimeout) # Should respond with "OK"
-                finally:
-                    self._ussdCommandPending = False
-        except Exception:
-            self._ussdSessionEvent = None # Cancel the thread sync lock
-            raise
-
-        # Some modems issue the +CUSD response before the acknowledgment "OK" - check for that
-        if len(cusdResponse) > 1:
-            cusdResponseFound = lineStartingWith('+CUSD', cusdResponse) != None
-            if cusdResponseFound:
+        with self._ussdLock:
+            self._ussdResponse = None
+            ussdSessionEvent = self._ussdSessionEvent = threading.Event()
+            try:
+                with self._txLock:
+                    self._ussdCommandPending = True
+                    try:
+                        cusdResponse = self.write('AT+CUSD=1,"{0}",15'.format(ussdString), timeout=responseTimeout) # Should respond with "OK"
+                    finally:
+                        self._ussdCommandPending = False
+                # Some modems issue the +CUSD response before the acknowledgment "OK" - check for that
+                if lineStartingWith('+CUSD', cusdResponse) != None:
+                    self._handleUssd(cusdResponse)
+                # Wait for the +CUSD notification message
+                if ussdSessionEvent.wait(responseTimeout):
+                    return self._ussdResponse
+                else: # Response timed out
+                    raise TimeoutException()
+            finally:
                 self._ussdSessionEvent = None # Cancel thread sync lock
-                return self._parseCusdResponse(cusdResponse)
-        # Wait for the +CUSD notification message
-        if self._ussdSessionEvent.wait(responseTimeout):
-            self._ussdSessionEvent = None
-            return self._ussdResponse
-        else: # Response timed out
-            self._ussdSessionEvent = None            
-            raise TimeoutException()
     
     def dial(self, number, timeout=5, callStatusUpdateCallbackFunc=None):
         """ Calls the specified phone number using a voice phone call
@@ -931,6 +927,8 @@ class GsmModem(SerialComms):
     def _isNotificationIncomplete(self):
         if self._callingLineIdentification and self.RING_REGEX.match(self._notification[-1]):
             return True # The caller ID follows
+        if self._ussdSessionEvent and self._notification[-1].startswith('+CUSD: 2'):
+            return True # Possibly an extra "session release" message that precedes the response
         return self._openUssdNotification() >= 0
 
     def _handleModemNotification(self, lines):
@@ -1259,25 +1257,30 @@ class GsmModem(SerialComms):
     
     def _handleUssd(self, lines):
         """ Handler for USSD event notification line(s) """
-        if self._ussdSessionEvent:
-            # A sendUssd() call is waiting for this response - parse it
-            self._ussdResponse = self._parseCusdResponse(lines)
+        ussd = self._parseCusdResponse(lines)
+        if ussd == None:
+            return # Not a valid notification
+        ussdSessionEvent = self._ussdSessionEvent
+        if ussdSessionEvent and not ussdSessionEvent.is_set():
+            # A sendUssd() call is waiting for this response
+            self._ussdResponse = ussd
             # Notify waiting thread
-            self._ussdSessionEvent.set()
+            ussdSessionEvent.set()
+        elif self._ussdResponse and not ussd.sessionActive:
+            # The session of the last response has been closed
+            self._ussdResponse.sessionActive = False
     
     def _parseCusdResponse(self, lines):
         """ Parses one or more +CUSD notification lines (for USSD)
-        :return: USSD response object
+        :return: USSD response object, or None if there is no valid +CUSD notification
         :rtype: gsmmodem.modem.Ussd
         """
-        if len(lines) > 1:
-            # Issue #20: Some modem/network combinations use \r\n as in-message EOL indicators;
-            # - join lines to compensate for that (thanks to davidjb for the fix)
-            # Also, look for more than one +CUSD response because of certain modems' strange behaviour
-            cusdMatches = list(self.CUSD_REGEX.finditer('\r\n'.join(lines)))
-        else:
-            # Single standard +CUSD response
-            cusdMatches = [self.CUSD_REGEX.match(lines[0])]
+        # Issue #20: Some modem/network combinations use \r\n as in-message EOL indicators;
+        # - join lines to compensate for that (thanks to davidjb for the fix)
+        # Also, look for more than one +CUSD response because of certain modems' strange behaviour
+        cusdMatches = list(self.CUSD_REGEX.finditer('\r\n'.join(lines)))
+        if len(cusdMatches) == 0:
+            return None
         message = None
         sessionActive = True
         if len(cusdMatches) > 1:
@@ -1290,7 +1293,8 @@ class GsmModem(SerialComms):
                     sessionActive = False
                 else:
                     # Not a "session release" message
-                    message = cusdMatch.group(2)
+                    if cusdMatch.group(2) != None:
+                        message = cusdMatch.group(2)
                     if sessionActive and cusdMatch.group(1) != '1':
                         sessionActive = False
         else:
@@ -1489,7 +1493,9 @@ class Ussd(object):
         :return: The USSD response message/session (as a Ussd object)
         """
         if self.sessionActive:
-            return self._gsmModem.sendUssd(message)
+            ussd = self._gsmModem.sendUssd(message)
+            self.sessionActive = ussd.sessionActive
+            return ussd
         else:
             raise InvalidStateException('USSD session is inactive')
                 
@@ -1500,3 +1506,4 @@ class Ussd(object):
         """
         if self.sessionActive:
             self._gsmModem.write('AT+CUSD=2')
+            self.sessionActive = False
-- 
2.43.0


From 948672b4568b7f484f757129a4c17fca95261187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:57 +0000
Subject: [PATCH 24/44] fix: keep DTMF settings per modem

---
 gsmmodem/modem.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 61f94c7..c74b0b4 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -162,6 +162,8 @@ class GsmModem(SerialComms):
         self._dialLock = threading.Lock() # Only one call can be dialed at a time
         self._waitForAtdResponse = True # Flag that controls if we should wait for an immediate response to ATD, or not
         self._waitForCallInitUpdate = True # Flag that controls if we should wait for a ATD "call initiated" message
+        self._dtmfCommandBase = '+VTS=' # Command used for sending DTMF tones
+        self._dtmfSupport = False # Whether or not DTMF tones can be sent in calls
         self._callStatusUpdates = [] # populated during connect() - contains regexes and handlers for detecting/handling call status updates
         self._mustPollCallStatus = False # whether or not the modem must be polled for outgoing call status updates
         self._pollCallStatusRegex = None # Regular expression used when polling outgoing call status
@@ -219,7 +221,7 @@ class GsmModem(SerialComms):
             if '^CVOICE' in commands:
                 self.write('AT^CVOICE=0', parseError=False) # Enable voice calls
             if '+VTS' in commands: # Check for DTMF sending support
-                Call.dtmfSupport = True
+                self._dtmfSupport = Call.dtmfSupport = True
             elif '^DTMF' in commands:
                 # Huawei modems use ^DTMF to send DTMF tones
                 callUpdateTableHint = 1 # Huawei
@@ -268,8 +270,9 @@ class GsmModem(SerialComms):
                                        (re.compile(r'^\^CEND:(\d),(\d+),(\d+)(?:,(\d+))?$'), self._handleCallEnded))
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
-            Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
-            Call.dtmfSupport = True
+            self._dtmfCommandBase = '^DTMF={cid},'
+            Call.DTMF_COMMAND_BASE = self._dtmfCommandBase
+            self._dtmfSupport = Call.dtmfSupport = True
         elif callUpdateTableHint == 2:
             # Wavecom modem: +WIND notifications supported
             self.log.info('Loading Wavecom call state update table')
@@ -279,7 +282,7 @@ class GsmModem(SerialComms):
             self._waitForAtdResponse = False # Wavecom modems return OK only when the call is answered
             self._mustPollCallStatus = False
             if commands == None: # older modem, assume it has standard DTMF support
-                Call.dtmfSupport = True
+                self._dtmfSupport = Call.dtmfSupport = True
         elif callUpdateTableHint == 3: # ZTE
             # Use ZTE notifications ("CONNECT"/"HANGUP", but no "call initiated" notification)
             self.log.info('Loading ZTE call state update table')
@@ -290,7 +293,7 @@ class GsmModem(SerialComms):
             self._mustPollCallStatus = False
             self._waitForCallInitUpdate = False # ZTE modems do not provide "call initiated" updates
             if commands == None: # ZTE uses standard +VTS for DTMF
-                Call.dtmfSupport = True
+                self._dtmfSupport = Call.dtmfSupport = True
         else:
             # Unknown modem - we do not know what its call updates look like. Use polling instead
             self.log.info('Unknown/generic modem type - will use polling for call state updates')
@@ -1359,6 +1362,7 @@ class Call(object):
         """
         self._gsmModem = weakref.proxy(gsmModem)
         self._callStatusUpdateCallbackFunc = callStatusUpdateCallbackFunc
+        self.dtmfSupport = gsmModem._dtmfSupport
         # Unique ID of this call
         self.id = callId
         # Call type (VOICE == 0, etc)
@@ -1405,7 +1409,7 @@ class Call(object):
         :raise InvalidStateException: if the call has not been answered, or is ended while the command is still executing
         """        
         if self.answered:
-            dtmfCommandBase = self.DTMF_COMMAND_BASE.format(cid=self.id)
+            dtmfCommandBase = self._gsmModem._dtmfCommandBase.format(cid=self.id)
             toneLen = len(tones)
             if len(tones) > 1:
                 cmd = ('AT{0}{1};{0}' + ';{0}'.join(tones[1:])).format(dtmfCommandBase, tones[0])                
-- 
2.43.0


From fb3d5c12c901a4129c6d57b739b1a842288d933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 25/44] fix: connect to modems with missing features, and never
 enter a PIN in vain

Unexpected or missing responses to optional commands made connect() fail; the
PIN was also sent if the SIM card asks for its PUK or PIN2, or for nothing.
---
 gsmmodem/modem.py | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index c74b0b4..6d26c2a 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -6,7 +6,7 @@ import sys, re, logging, weakref, time, threading, abc, codecs
 from datetime import datetime
 
 from .serial_comms import SerialComms
-from .exceptions import CommandError, InvalidStateException, CmeError, CmsError, InterruptedException, TimeoutException, PinRequiredError, IncorrectPinError, SmscNumberUnknownError
+from .exceptions import CommandError, InvalidStateException, CmeError, CmsError, InterruptedException, TimeoutException, PinRequiredError, IncorrectPinError, PukRequiredError, SmscNumberUnknownError
 from .pdu import encodeSmsSubmitPdu, decodeSmsPdu
 from .util import SimpleOffsetTzInfo, lineStartingWith, allLinesMatchingPattern, parseTextModeTimeStr
 
@@ -183,6 +183,7 @@ class GsmModem(SerialComms):
         
         :raise PinRequiredError: if the SIM card requires a PIN but none was provided
         :raise IncorrectPinError: if the specified PIN is incorrect
+        :raise PukRequiredError: if the SIM card is blocked
         """
         self.log.info('Connecting to modem on port %s at %dbps', self.port, self.baudrate)        
         super(GsmModem, self).connect()
@@ -201,13 +202,13 @@ class GsmModem(SerialComms):
             pinCheckComplete = False
         self.write('ATE0') # echo off
         try:
-            cfun = int(lineStartingWith('+CFUN:', self.write('AT+CFUN?'))[7:]) # example response: +CFUN: 1
-            if cfun != 1:
+            cfun = lineMatching(r'^\+CFUN:\s*(\d+)', self.write('AT+CFUN?')) # example response: +CFUN: 1
+            if cfun == None or int(cfun.group(1)) != 1:
                 self.write('AT+CFUN=1')
         except CommandError:
             pass # just ignore if the +CFUN command isn't supported
                 
-        self.write('AT+CMEE=1') # enable detailed error messages (even if it has already been set - ATZ may reset this)
+        self.write('AT+CMEE=1', parseError=False) # enable detailed error messages (even if it has already been set - ATZ may reset this)
         if not pinCheckComplete:
             self._unlockSim(pin)
 
@@ -239,19 +240,23 @@ class GsmModem(SerialComms):
 
         if enableWind:
             try:
-                wind = lineStartingWith('+WIND:', self.write('AT+WIND?')) # Check current WIND value; example response: +WIND: 63
+                wind = lineMatching(r'^\+WIND:\s*(\d+)', self.write('AT+WIND?')) # Check current WIND value; example response: +WIND: 63
+                # Enable notifications for call setup, hangup, etc
+                if wind == None or int(wind.group(1)) != 50:
+                    self.write('AT+WIND=50')
             except CommandError:
                 # Modem does not support +WIND notifications. See if we can detect other known call update notifications
                 pass
             else:
-                # Enable notifications for call setup, hangup, etc
-                if int(wind[7:]) != 50:
-                    self.write('AT+WIND=50')
                 callUpdateTableHint = 2 # Wavecom
 
         # Attempt to identify modem type directly (if not already) - for outgoing call status updates
         if callUpdateTableHint == 0:
-            if self.manufacturer.lower() == 'huawei':
+            try:
+                manufacturer = self.manufacturer
+            except CommandError:
+                manufacturer = ''
+            if manufacturer.lower() == 'huawei':
                 callUpdateTableHint = 1 # huawei
             else:
                 # See if this is a ZTE modem that has not yet been identified based on supported commands
@@ -328,10 +333,10 @@ class GsmModem(SerialComms):
             self._smsReadSupported = False
             self.log.warning('SMS preferred message storage query not supported by modem. SMS reading unavailable.')
         else:
-            cpmsSupport = cpmsLine.split(' ', 1)[1].split('),(')
+            cpmsSupport = (cpmsLine or '').partition(':')[2].split('),(')
             # Do a sanity check on the memory types returned - Nokia S60 devices return empty strings, for example
             for memItem in cpmsSupport:
-                if len(memItem) == 0:
+                if re.search(r'"[^"]+"', memItem) == None:
                     # No support for reading stored SMS via AT commands - probably a Nokia S60
                     self._smsReadSupported = False
                     self.log.warning('Invalid SMS message storage support returned by modem. SMS reading unavailable. Response was: "%s"', cpmsLine)
@@ -343,11 +348,17 @@ class GsmModem(SerialComms):
                 for i in xrange(len(cpmsSupport)):
                     for memType in preferredMemoryTypes:
                         if memType in cpmsSupport[i]:
-                            if i == 0:
-                                self._smsMemReadDelete = memType
                             cpmsItems[i] = memType
                             break
-                self.write('AT+CPMS={0}'.format(','.join(cpmsItems))) # Set message storage
+                    else:
+                        # None of the preferred ones; use the first one that is supported
+                        cpmsItems[i] = re.search(r'"[^"]+"', cpmsSupport[i]).group(0)
+                try:
+                    self.write('AT+CPMS={0}'.format(','.join(cpmsItems))) # Set message storage
+                except CommandError as cpmsError:
+                    self.log.warning('Unable to set preferred message storage. Error: {0}'.format(cpmsError))
+                else:
+                    self._smsMemReadDelete = cpmsItems[0]
             del cpmsSupport
             del cpmsLine
         
@@ -393,7 +404,10 @@ class GsmModem(SerialComms):
             else:
                 # Nothing read (real timeout)
                 raise timeout
-        if cpinResponse != '+CPIN: READY':
+        simStatus = cpinResponse.partition(':')[2].strip() if cpinResponse != None else 'READY' # assume that no PIN is needed if it isn't asked for
+        if simStatus == 'SIM PUK':
+            raise PukRequiredError('AT+CPIN') # A PIN does not help (anymore)
+        elif simStatus not in ('READY', 'SIM PIN2', 'SIM PUK2'):
             if pin != None:
                 self.write('AT+CPIN="{0}"'.format(pin))
             else:
-- 
2.43.0


From d9e8dc33ab0ea37aee17e1bcae49be5c75907e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:49 +0000
Subject: [PATCH 26/44] fix: understand all forms of +CLAC and +CREG responses

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 6d26c2a..ee69cc5 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -541,7 +541,7 @@ class GsmModem(SerialComms):
                 commands = response[0]
                 if commands.startswith('+CLAC'):
                     commands = commands[6:] # remove the +CLAC: prefix before splitting
-                return commands.split(',')
+                return [cmd.strip() for cmd in commands.split(',')]
             elif len(response) > 2: # Multi-line response
                 return [cmd.strip() for cmd in response[:-1]]
             else:
@@ -637,7 +637,7 @@ class GsmModem(SerialComms):
         checkCreg = True
         while block[0]:
             if checkCreg:
-                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
+                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)(,.*)?$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
                 if cregResult:
                     status = int(cregResult.group(2))
                     if status in (1, 5):
-- 
2.43.0


From 887f48a0408220c3daaaa3ae5b7d58f35e3ef9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 27/44] fix: let the program end after waiting for network
 coverage

---
 gsmmodem/modem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index ee69cc5..3b2ce32 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -632,6 +632,7 @@ class GsmModem(SerialComms):
             def _cancelBlock():                
                 block[0] = False                
             t = threading.Timer(timeout, _cancelBlock)
+            t.daemon = True # It must not keep the program running after coverage was found
             t.start()
         ss = -1
         checkCreg = True
-- 
2.43.0


From a995127387887923d06a7f83128792d43d5cb102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 28/44] fix: let the iteration of a Trie end normally

---
 tools/gsmtermlib/trie.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 184a2fd..323599d 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -182,5 +182,4 @@ class Trie(object):
     def __iter__(self):
         for k in list(self.keys()):
             yield k
-        raise StopIteration
     
\ No newline at end of file
-- 
2.43.0


From 2ee130cc3dcec314748df8668bea887d610af42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 29/44] fix: keep longer keys when adding their prefix to a
 Trie

---
 tools/gsmtermlib/trie.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 323599d..9e6190b 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -25,6 +25,9 @@ class Trie(object):
     
         if len(key) == 0:
             # All of the original key's chars have been nibbled away            
+            if self.key != None and len(self.key) > 0:
+                # This was a "leaf" previously - create a new branch for its current value
+                self.slots[self.key[0]] = Trie(self.key[1:], self.value)
             self.value = value
             self.key = ''
             return        
-- 
2.43.0


From 91b75ad0f449b972728ea34447a8fba6ee471fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 30/44] fix: find the longest common prefix below stored
 prefixes and after deletions

---
 tools/gsmtermlib/trie.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 9e6190b..19d8e4b 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -76,6 +76,8 @@ class Trie(object):
                     del self.slots[c] # Remove the node
             else:
                 del trie[key[1:]]
+                if trie.key == None and len(trie.slots) == 0:
+                    del self.slots[c] # Remove the node (nothing is left in it)
         else:
             raise KeyError(key)
                 
@@ -170,15 +172,12 @@ class Trie(object):
                     return self.slots[c]._longestCommonPrefix('', prefix + c)
                 else:
                     return prefix
-        elif self.key != None:
-            if self.key.startswith(key):
-                return prefix + self.key
-            else:
-                return '' # nothing starts with the specified prefix
         else:
             c = key[0]
             if c in self.slots:
                 return self.slots[c]._longestCommonPrefix(key[1:], prefix + c)
+            elif self.key != None and self.key.startswith(key):
+                return prefix + self.key
             else:
                 return '' # nothing starts with the specified prefix
     
-- 
2.43.0


From 7a3ac0a984403cbde19bc9fcb3ca46047bbe4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 31/44] fix: keep the typed text when completing lower-case
 commands

---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 4bc665d..cd4da6f 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -554,7 +554,7 @@ class GsmTerm(RawTerm):
                     self._refreshInputPrompt(len(self.inputBuffer))
                 return
             else:
-                commonPrefix = self.completion.longestCommonPrefix(''.join(self.inputBuffer))
+                commonPrefix = self.completion.longestCommonPrefix(prefix)
                 self.inputBuffer = list(commonPrefix)
                 self.cursorPos = len(self.inputBuffer)
                 if matchLen > 20:
-- 
2.43.0


From 32c34cb799538de987baf1b94a4e73523466a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 32/44] fix: survive TAB after an unknown command

---
 tools/gsmtermlib/terminal.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index cd4da6f..00eea66 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -536,11 +536,8 @@ class GsmTerm(RawTerm):
         matches = self.completion.keys(prefix)
         matchLen = len(matches)        
         if matchLen == 0 and prefix[-1] == '=':
-            try:                
-                command = prefix[:-1]
-            except KeyError:
-                pass                        
-            else:
+            command = prefix[:-1]
+            if command in self.completion:
                 self.__printCommandSyntax(command)
         elif matchLen > 0:                        
             if matchLen == 1:
-- 
2.43.0


From 3b595657f087af95fd0601e41768c21c4d514eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 33/44] fix: do not complete commands in SMS text

---
 tools/gsmtermlib/terminal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 00eea66..92b6109 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -532,6 +532,8 @@ class GsmTerm(RawTerm):
 
     def _doCommandCompletion(self):
         """ Command-completion method """        
+        if self._typingSms:
+            return # This is not a command
         prefix =  ''.join(self.inputBuffer).strip().upper()
         matches = self.completion.keys(prefix)
         matchLen = len(matches)        
-- 
2.43.0


From 6af2729e73e8f8b93bd89a2ab7e6ae644fe43f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 34/44] fix: stay at the command prompt if AT+CMGS is refused

---
 tools/gsmtermlib/terminal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 92b6109..a0d9088 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -457,8 +457,12 @@ class GsmTerm(RawTerm):
                     except TimeoutException:
                         self._typingSms = False                        
                     else:
-                        sys.stdout.write(self._color(self.COLOR_YELLOW, 'Type your SMS message, and press CTRL+Z to send it or press ESC to cancel.\n'))                        
-                        self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[0])
+                        if response[-1] == '> ':
+                            sys.stdout.write(self._color(self.COLOR_YELLOW, 'Type your SMS message, and press CTRL+Z to send it or press ESC to cancel.\n'))                        
+                            self.SMS_PROMPT = self._color(self.COLOR_GREEN, response[-1])
+                        else: # The modem does not accept a message now
+                            self._typingSms = False
+                            print(self._color(self.COLOR_RED, '\n'.join(response)))
                     self._refreshInputPrompt()                        
                     return
                 self.serial.write(inputStr)
-- 
2.43.0


From 70e077a3e4d48ef81e243160d574626761e18e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 35/44] fix: keep the command prompt when a notification
 arrives during SMS input

---
 tools/gsmtermlib/terminal.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index a0d9088..bf080c0 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -227,8 +227,6 @@ class GsmTerm(RawTerm):
     def _handleModemNotification(self, lines):
         # Clear any input prompt
         self._removeInputPrompt()
-        if self._typingSms:
-            self.PROMPT = self._color(self.COLOR_CYAN, lines[0])
         if lines[-1] == 'ERROR':
             print(self._color(self.COLOR_RED, '\n'.join(lines)))
         else:
-- 
2.43.0


From 3d3b401a3c553e83750c862a267b692e848f4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 36/44] fix: show the command prompt after cancelling an SMS

---
 tools/gsmtermlib/terminal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index bf080c0..0fe0634 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -299,6 +299,8 @@ class GsmTerm(RawTerm):
             self._typingSms = False
             self.inputBuffer = []
             self.cursorPos = 0
+            sys.stdout.write('\n')
+            self._refreshInputPrompt()
 
     def _exit(self):
         """ Shuts down the terminal (and app) """
-- 
2.43.0


From 15713c0c5d4bbf70688bc54a579f67a2c7e99015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 37/44] fix: sendsms.py on Python 3 (raw_input is gone)

---
 tools/sendsms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/sendsms.py b/tools/sendsms.py
index 31c42bd..1a66759 100755
--- a/tools/sendsms.py
+++ b/tools/sendsms.py
@@ -9,6 +9,9 @@ Simple script to send an SMS message
 from __future__ import print_function
 import sys, logging
 
+if sys.version_info[0] >= 3:
+    raw_input = input
+
 from gsmmodem.modem import GsmModem, SentSms
 from gsmmodem.exceptions import TimeoutException, PinRequiredError, IncorrectPinError
 
-- 
2.43.0


From a65631a52b86ac71b91977ba39ec3b0c0cee78b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:21 +0000
Subject: [PATCH 38/44] fix: IncomingCall.ton in integer format, as documented

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 3b2ce32..6aaca90 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1031,7 +1031,7 @@ class GsmModem(SerialComms):
             clipMatch = self.CLIP_REGEX.match(clipLine)
             if clipMatch:
                 callerNumber = clipMatch.group(1)
-                ton = clipMatch.group(2)
+                ton = int(clipMatch.group(2))
                 #TODO: re-add support for this
                 callerName = None
                 #callerName = clipMatch.group(3)
-- 
2.43.0


From 174c6bf410857346f0fdeae614ab5f695a1f4b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:56 +0000
Subject: [PATCH 39/44] fix: a dialled call is a voice call on Wavecom modems
 too

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 6aaca90..1012f7e 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1077,7 +1077,7 @@ class GsmModem(SerialComms):
         if call._changeState(answered, active) and call._callStatusUpdateCallbackFunc:
             self._startHandlerThread(call._callStatusUpdateCallbackFunc, call)
 
-    def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
+    def _handleCallInitiated(self, regexMatch, callId=None, callType=0):
         """ Handler for "outgoing call initiated" event notification line """
         with self._callsLock:
             if self._dialEvent and not self._dialEvent.is_set():
-- 
2.43.0


From 824058f1a3f47bb9ccc297585f2a2b081c2c98d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:48 +0000
Subject: [PATCH 40/44] fix: a refused USSD request does not detach the open
 session from its release

---
 gsmmodem/modem.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1012f7e..867be13 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -732,7 +732,6 @@ class GsmModem(SerialComms):
         :rtype: gsmmodem.modem.Ussd
         """
         with self._ussdLock:
-            self._ussdResponse = None
             ussdSessionEvent = self._ussdSessionEvent = threading.Event()
             try:
                 with self._txLock:
-- 
2.43.0


From 1d5a15f5e938e1b04758ea9dd1391636a0a9f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:04 +0000
Subject: [PATCH 41/44] fix: features detected on an earlier modem are not
 assumed when connecting again

---
 gsmmodem/modem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 867be13..61a1ca0 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -186,6 +186,13 @@ class GsmModem(SerialComms):
         :raise PukRequiredError: if the SIM card is blocked
         """
         self.log.info('Connecting to modem on port %s at %dbps', self.port, self.baudrate)        
+        # Forget what was detected about the modem of an earlier connection; it may have been replaced
+        self._waitForAtdResponse = True
+        self._waitForCallInitUpdate = True
+        self._dtmfCommandBase = '+VTS='
+        self._dtmfSupport = False
+        self._smsMemReadDelete = None
+        self._smsReadSupported = True
         super(GsmModem, self).connect()
         # Send some initialization commands to the modem
         try:        
-- 
2.43.0


From f342904e3b80796a68c23dc312842a12ba88c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:04 +0000
Subject: [PATCH 42/44] fix: the SMSC number found on an earlier SIM card is
 not written to the next one

---
 gsmmodem/modem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 61a1ca0..b20e7c7 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -170,6 +170,7 @@ class GsmModem(SerialComms):
         self._writeWait = 0 # Time (in seconds to wait after writing a command (adjusted when 515 errors are detected)
         self._smsTextMode = False # Storage variable for the smsTextMode property
         self._smscNumber = None # Default SMSC number
+        self._userSmscNumber = None # Default SMSC number set by the user (as opposed to the one found on the SIM card)
         self._smsRef = 0 # Sent SMS reference counter
         self._smsMemReadDelete = None # Preferred message storage memory for reads/deletes (<mem1> parameter used for +CPMS)
         self._smsMemWrite = None # Preferred message storage memory for writes (<mem2> parameter used for +CPMS)
@@ -193,6 +194,7 @@ class GsmModem(SerialComms):
         self._dtmfSupport = False
         self._smsMemReadDelete = None
         self._smsReadSupported = True
+        self._smscNumber = self._userSmscNumber # the SIM card may have been replaced as well
         super(GsmModem, self).connect()
         # Send some initialization commands to the modem
         try:        
@@ -330,7 +332,8 @@ class GsmModem(SerialComms):
         self.write('AT+CSMP=49,167,0,0', parseError=False) # Enable delivery reports
         # ...check SMSC again to ensure it did not change
         if currentSmscNumber != None and self.smsc != currentSmscNumber:
-            self.smsc = currentSmscNumber
+            self.write('AT+CSCA="{0}"'.format(currentSmscNumber))
+            self._smscNumber = currentSmscNumber
 
         # Set message storage, but first check what the modem supports - example response: +CPMS: (("SM","BM","SR"),("SM"))
         try:
@@ -616,6 +619,7 @@ class GsmModem(SerialComms):
             if self.alive:
                 self.write('AT+CSCA="{0}"'.format(smscNumber))
             self._smscNumber = smscNumber
+        self._userSmscNumber = smscNumber
 
     def waitForNetworkCoverage(self, timeout=None):
         """ Block until the modem has GSM network coverage.
-- 
2.43.0


From 6d7818d3650fbccdc52d57adae7221514056cf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 43/44] fix: calls of an earlier connection are not considered
 active after connecting again

---
 gsmmodem/modem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index b20e7c7..49c8091 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -195,6 +195,9 @@ class GsmModem(SerialComms):
         self._smsMemReadDelete = None
         self._smsReadSupported = True
         self._smscNumber = self._userSmscNumber # the SIM card may have been replaced as well
+        # Calls do not survive a reset of the modem (see ATZ below)
+        for call in list(self.activeCalls.values()):
+            call._changeState(answered=False, active=False)
         super(GsmModem, self).connect()
         # Send some initialization commands to the modem
         try:        
-- 
2.43.0


From 5d66e7be981b41114cea18ea68366af22d4f7805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:56 +0000
Subject: [PATCH 44/44] fix: a busy modem that refuses the command in the end
 does not slow down later commands

---
 gsmmodem/modem.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 49c8091..3bb322e 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -472,15 +472,17 @@ class GsmModem(SerialComms):
                             # Retry the command after waiting a bit
                             self.log.debug('Device/SIM busy error detected; self._writeWait adjusted to %fs', self._writeWait)
                             time.sleep(self._writeWait)
-                            if retryFunc:
-                                result = retryFunc()
-                            else:
-                                result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
-                            self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
-                            if errorCode == 515:
-                                self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
-                            else:
-                                self._writeWait = 0 # The modem was just waiting for the SIM card
+                            try:
+                                if retryFunc:
+                                    result = retryFunc()
+                                else:
+                                    result = self.write(data, waitForResponse, timeout, parseError, writeTerm, expectedResponseTermSeq)
+                            finally: # The modem has recovered, even if it refused the command then
+                                self.log.debug('self_writeWait set to 0.1 because of recovering from device busy (515) error')
+                                if errorCode == 515:
+                                    self._writeWait = 0.1 # Set this to something sane for further commands (slow modem)
+                                else:
+                                    self._writeWait = 0 # The modem was just waiting for the SIM card
                             return result
                         if errorType == 'CME':
                             raise CmeError(data, int(errorCode))
-- 
2.43.0

