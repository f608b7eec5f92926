From ba6c2f490c71ffecea50bdf30f44ebbe783d9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 01/39] fix: do not write into the caller's item when setting

Set of the text and the meta client appended CRLF to item.Value, which
overwrites bytes of the caller's buffer behind a slice with spare capacity.
---
 client/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6a41d3e..8f47b28 100644
--- a/client/server.go
+++ b/client/server.go
@@ -473,7 +473,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 			return err
 		}
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -876,7 +879,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if _, err := fmt.Fprintf(s.conn, "ms "+format+"\r\n", values...); err != nil {
 		return err
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
-- 
2.43.0


From 62465667ccbb1ee4fe9275e3044d5ef28c3fa4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 02/39] fix: do not panic on flags that are not four bytes long

Set of the meta client and Set, Add and Replace of the binary client sliced
item.Flags without looking at its length; the text operations ignore flags of
another length, so do the same everywhere.
---
 client/server.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/server.go b/client/server.go
index 8f47b28..dbd9416 100644
--- a/client/server.go
+++ b/client/server.go
@@ -872,7 +872,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 		format += " C%d"
 		values = append(values, item.Cas)
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		format += " F%d"
 		values = append(values, binary.BigEndian.Uint32(item.Flags))
 	}
@@ -1353,8 +1353,8 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
@@ -1405,8 +1405,8 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
@@ -1457,8 +1457,8 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
-- 
2.43.0


From 8cc789a452755e5d1b2cae5440269817c5495d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 03/39] fix: parse VALUE lines of the text protocol field by
 field

Get scanned the line with Fscanf, which splits keys at Unicode spaces and
rejects others, so that the rest of the reply was left for the next call.
GetMulti indexed fields that a short line does not have, accepted negative
sizes, refused flags above 2^31 on 32 bit and dropped the CAS token.
---
 client/server.go | 99 +++++++++++++++++++++++-------------------------
 1 file changed, 48 insertions(+), 51 deletions(-)

diff --git a/client/server.go b/client/server.go
index dbd9416..3f15e87 100644
--- a/client/server.go
+++ b/client/server.go
@@ -27,9 +27,6 @@ var (
 	msgTextProtoExists   = []byte("EXISTS\r\n")
 	msgTextProtoOk       = []byte("OK\r\n")
 	msgTextProtoEnd      = []byte("END\r\n")
-
-	valueFormatWithCas = "VALUE %s %d %d %d"
-	valueFormat        = "VALUE %s %d %d"
 )
 
 var (
@@ -214,47 +211,19 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	if err := s.conn.Flush(); err != nil {
 		return nil, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	items, err := s.parseGetResponse(s.conn.Reader)
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgTextProtoEnd) {
+	switch len(items) {
+	case 0:
 		return nil, merrors.ItemNotFound
-	}
-	if !bytes.HasPrefix(b, []byte("VALUE")) {
-		return nil, errors.New("memcached: invalid response")
-	}
-	item := &Item{Server: s.Name()}
-	size := 0
-	p := valueFormatWithCas
-	var flags uint32
-	scan := []interface{}{&item.Key, &flags, &size, &item.Cas}
-	if bytes.Count(b, []byte(" ")) == 3 {
-		p = valueFormat
-		scan = scan[:3]
-	}
-	if _, err := fmt.Fscanf(bytes.NewReader(b), p, scan...); err != nil {
-		return nil, err
-	}
-	f := make([]byte, 4)
-	binary.BigEndian.PutUint32(f, flags)
-	item.Flags = f
-
-	buf := make([]byte, size+2)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
-		return nil, err
-	}
-	item.Value = buf[:size]
-
-	b, err = s.conn.ReadSlice('\n')
-	if err != nil {
-		return nil, err
-	}
-	if !bytes.Equal(b, msgTextProtoEnd) {
+	case 1:
+		items[0].Server = s.Name()
+		return items[0], nil
+	default:
 		return nil, errors.New("memcached: invalid response")
 	}
-
-	return item, nil
 }
 
 func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
@@ -299,43 +268,71 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		if bytes.Equal(b, []byte("END\r\n")) {
 			break
 		}
-		s := bytes.Split(b, []byte(" "))
-		if !bytes.Equal(s[0], []byte("VALUE")) {
+		s := bytes.Split(bytes.TrimSuffix(b, crlf), []byte(" "))
+		if !bytes.Equal(s[0], []byte("VALUE")) || (len(s) != 4 && len(s) != 5) {
 			return nil, errors.New("memcached: invalid response")
 		}
 
-		f, err := strconv.Atoi(string(s[2]))
+		f, err := strconv.ParseUint(string(s[2]), 10, 32)
 		if err != nil {
 			return nil, err
 		}
 		flags := make([]byte, 4)
 		binary.BigEndian.PutUint32(flags, uint32(f))
 
-		var size int
-		if len(s) == 4 {
-			size, err = strconv.Atoi(string(s[3][:len(s[3])-2]))
-		} else {
-			size, err = strconv.Atoi(string(s[3]))
-		}
+		size, err := strconv.ParseUint(string(s[3]), 10, 31)
 		if err != nil {
 			return nil, err
 		}
-
-		buf := make([]byte, size+2)
 		item := &Item{
 			Key:   string(s[1]),
 			Flags: flags,
 		}
-		if _, err := io.ReadFull(r, buf); err != nil {
+		if len(s) == 5 {
+			item.Cas, err = strconv.ParseUint(string(s[4]), 10, 64)
+			if err != nil {
+				return nil, err
+			}
+		}
+
+		item.Value, err = readDataBlock(r, int(size))
+		if err != nil {
 			return nil, err
 		}
-		item.Value = buf[:size]
 		res = append(res, item)
 	}
 
 	return res, nil
 }
 
+// readBody reads exactly n bytes. It does not trust n until the bytes arrive.
+func readBody(r io.Reader, n int) ([]byte, error) {
+	if n > 1<<20 {
+		buf := new(bytes.Buffer)
+		if _, err := io.CopyN(buf, r, int64(n)); err != nil {
+			return nil, err
+		}
+		return buf.Bytes(), nil
+	}
+	buf := make([]byte, n)
+	if _, err := io.ReadFull(r, buf); err != nil {
+		return nil, err
+	}
+	return buf, nil
+}
+
+// readDataBlock reads size bytes and the CRLF that terminates them.
+func readDataBlock(r io.Reader, size int) ([]byte, error) {
+	buf, err := readBody(r, size+2)
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(buf[size:], crlf) {
+		return nil, errors.New("memcached: invalid response")
+	}
+	return buf[:size], nil
+}
+
 func (s *ServerWithTextProtocol) Delete(key string) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-- 
2.43.0


From 9a9a655a0f321eb5b517616d58cbda91d6b4e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 04/39] fix: read all answers of the meta client's GetMulti

The answer EN of the first missing key was taken for the end of the answers,
which dropped the items after it and left their answers for the next call. So
did an error for one of the keys.
---
 client/server.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/client/server.go b/client/server.go
index 3f15e87..4ee838c 100644
--- a/client/server.go
+++ b/client/server.go
@@ -39,6 +39,8 @@ var (
 	msgMetaProtoNotFound  = []byte("NF")
 )
 
+var errInvalidMetaGetResponse = errors.New("memcached: invalid get response")
+
 var (
 	magicRequest  byte = 0x80
 	magicResponse byte = 0x81
@@ -742,19 +744,36 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
-MultiRead:
+	// Every key has an answer of its own, and the answer of mn comes last.
+	var failed error
 	for {
+		b, err := s.conn.Peek(len(msgMetaProtoNoop))
+		if err != nil {
+			return nil, err
+		}
+		if bytes.Equal(b, msgMetaProtoNoop) {
+			if _, err := s.conn.Discard(len(b)); err != nil {
+				return nil, err
+			}
+			break
+		}
+
 		item, err := s.parseGetResponse(s.conn)
 		if err != nil {
-			switch err {
-			case merrors.ItemNotFound:
-				break MultiRead
-			default:
+			if err == merrors.ItemNotFound {
+				continue
+			}
+			if err != errInvalidMetaGetResponse {
 				return nil, err
 			}
+			failed = err
+			continue
 		}
 		items = append(items, item)
 	}
+	if failed != nil {
+		return nil, failed
+	}
 
 	return items, nil
 }
@@ -764,14 +783,11 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgMetaProtoEnd) {
-		return nil, merrors.ItemNotFound
-	}
-	if bytes.Equal(b, msgMetaProtoNoop) {
+	if bytes.Equal(b, msgMetaProtoEnd) || bytes.HasPrefix(b, []byte("EN ")) {
 		return nil, merrors.ItemNotFound
 	}
-	if !bytes.HasPrefix(b, []byte("VA")) {
-		return nil, errors.New("memcached: invalid get response")
+	if !bytes.HasPrefix(b, []byte("VA ")) {
+		return nil, errInvalidMetaGetResponse
 	}
 
 	item := &Item{}
-- 
2.43.0


From 86c3ce59115173da79c65bb244715ae2e5ef6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 05/39] fix: parse the meta client's VA line without losing or
 trusting fields

Flags from 2^31 and CAS tokens from 2^63 were refused in the middle of the
reply, a negative size made make panic, and the size of a line without flags
was not read at all.
---
 client/server.go | 60 +++++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 44 deletions(-)

diff --git a/client/server.go b/client/server.go
index 4ee838c..ec1fb93 100644
--- a/client/server.go
+++ b/client/server.go
@@ -790,53 +790,25 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 		return nil, errInvalidMetaGetResponse
 	}
 
+	fields := bytes.Split(bytes.TrimSuffix(b, crlf), []byte(" "))
+	size, err := strconv.ParseUint(string(fields[1]), 10, 31)
+	if err != nil {
+		return nil, err
+	}
 	item := &Item{}
-	size := 0
-	// state:
-	//    1 - Reading size
-	//    2 - Reading flag name
-	//    3 - Reading token
-	state := 1 // Read size
-	var flagName byte
-	var startIndex int
-	for i := range b[3:] {
-		switch b[3+i] {
-		case ' ':
-			switch state {
-			case 1: // Reading size
-				s, err := strconv.ParseInt(string(b[3:3+i]), 10, 32)
-				if err != nil {
-					return nil, err
-				}
-				size = int(s)
-				state = 2
-			case 3: // Reading token
-				if err := s.readGetFlagToken(flagName, b[startIndex:3+i], item); err != nil {
-					return nil, err
-				}
-				state = 2
-			}
-		case '\r':
-			if state == 3 {
-				if err := s.readGetFlagToken(flagName, b[startIndex:3+i], item); err != nil {
-					return nil, err
-				}
-			}
-		case 'f', 'c', 't', 'k':
-			switch state {
-			case 2:
-				flagName = b[3+i]
-				state = 3
-				startIndex = 3 + i + 1
-			}
+	for _, f := range fields[2:] {
+		if len(f) == 0 {
+			continue
+		}
+		if err := s.readGetFlagToken(f[0], f[1:], item); err != nil {
+			return nil, err
 		}
 	}
 
-	buf := make([]byte, size+2)
-	if _, err := io.ReadFull(conn, buf); err != nil {
+	item.Value, err = readDataBlock(conn, int(size))
+	if err != nil {
 		return nil, err
 	}
-	item.Value = buf[:size]
 
 	return item, nil
 }
@@ -844,7 +816,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item *Item) error {
 	switch flagName {
 	case 'f':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseUint(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -852,11 +824,11 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		binary.BigEndian.PutUint32(f, uint32(in))
 		item.Flags = f
 	case 'c':
-		in, err := strconv.ParseInt(string(v), 10, 64)
+		in, err := strconv.ParseUint(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
-		item.Cas = uint64(in)
+		item.Cas = in
 	case 't':
 		in, err := strconv.ParseInt(string(v), 10, 32)
 		if err != nil {
-- 
2.43.0


From e04c609b5c5b3c57937f93b8cc6b304c79f47ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 06/39] fix: read the whole reply of every binary operation

Set, Add, Touch, Flush and Version left the body of a refusal (and Touch that
of a success) in the connection, where the next call took it for its reply;
Flush took every reply for success. Lengths which contradict each other or a
counter that is not eight bytes long made the client panic.
---
 client/server.go | 74 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/client/server.go b/client/server.go
index ec1fb93..2e29cca 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1230,9 +1230,12 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 	if err := resHeader.Read(s.conn); err != nil {
 		return nil, err
 	}
+	if resHeader.Opcode != binaryOpcodeGet {
+		return nil, errors.New("memcached: invalid response")
+	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	buf, err := resHeader.ReadBody(s.conn)
+	if err != nil {
 		return nil, err
 	}
 
@@ -1250,7 +1253,7 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 
 	return &Item{
 		Key:   key,
-		Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+		Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 		Flags: buf[:resHeader.ExtraLength],
 		Cas:   resHeader.CAS,
 	}, nil
@@ -1312,8 +1315,8 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		}
 
 		items = append(items, &Item{
-			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
-			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+			Key:   string(buf[resHeader.ExtraLength : int(resHeader.ExtraLength)+int(resHeader.KeyLength)]),
+			Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 			Flags: buf[:resHeader.ExtraLength],
 		})
 	}
@@ -1357,6 +1360,10 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2: // key exists
@@ -1409,6 +1416,10 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2:
@@ -1461,8 +1472,7 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
 		return err
 	}
 
@@ -1515,8 +1525,7 @@ func (s *ServerWithBinaryProtocol) Delete(key string) error {
 		return errors.New("memcached: invalid response")
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
 		return err
 	}
 
@@ -1586,8 +1595,8 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 
 	var body []byte
 	if resHeader.TotalBodyLength > 0 {
-		buf := make([]byte, resHeader.TotalBodyLength)
-		if _, err := io.ReadFull(s.conn, buf); err != nil {
+		buf, err := resHeader.ReadBody(s.conn)
+		if err != nil {
 			return 0, err
 		}
 		body = buf
@@ -1605,6 +1614,10 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		}
 	}
 
+	if len(body) != 8 {
+		return 0, errors.New("memcached: invalid response")
+	}
+
 	return int64(binary.BigEndian.Uint64(body)), nil
 }
 
@@ -1642,6 +1655,13 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	if err := resHeader.Read(s.conn); err != nil {
 		return err
 	}
+	if resHeader.Opcode != binaryOpcodeTouch {
+		return errors.New("memcached: invalid response")
+	}
+
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
+		return err
+	}
 
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
@@ -1684,6 +1704,17 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 		return errors.New("memcached: invalid response")
 	}
 
+	if _, err := resHeader.ReadBody(s.conn); err != nil {
+		return err
+	}
+
+	if resHeader.Status != 0 {
+		if v, ok := binaryStatus[resHeader.Status]; ok {
+			return fmt.Errorf("memcached: error %s", v)
+		}
+		return fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	}
+
 	return nil
 }
 
@@ -1712,6 +1743,14 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 	if err := resHeader.Read(s.conn); err != nil {
 		return "", err
 	}
+	if resHeader.Opcode != binaryOpcodeVersion {
+		return "", errors.New("memcached: invalid response")
+	}
+
+	buf, err := resHeader.ReadBody(s.conn)
+	if err != nil {
+		return "", err
+	}
 
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
@@ -1720,11 +1759,6 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
-		return "", err
-	}
-
 	return string(buf), nil
 }
 
@@ -1823,6 +1857,14 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 	return nil
 }
 
+// ReadBody reads the whole body which the header announced.
+func (h *binaryResponseHeader) ReadBody(r io.Reader) ([]byte, error) {
+	if uint32(h.ExtraLength)+uint32(h.KeyLength) > h.TotalBodyLength {
+		return nil, errors.New("memcached: invalid response")
+	}
+	return readBody(r, int(h.TotalBodyLength))
+}
+
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
 	ticker := time.NewTimer(interval)
 	for {
-- 
2.43.0


From 75878be64886a863b935e2f6cd9407b056c4bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 07/39] fix: read all replies of the binary client's GetMulti
 and keep the CAS token

An error for one key left its body and the replies after it in the connection,
and the items had no CAS token.
---
 client/server.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/client/server.go b/client/server.go
index 2e29cca..2212ef3 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1293,33 +1293,43 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
+	// The reply to the noop comes last, also when a get was refused.
+	var failed error
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	for {
 		if err := resHeader.Read(s.conn); err != nil {
 			return nil, err
 		}
-		if resHeader.Opcode == binaryOpcodeNoop {
-			break
+		buf, err := resHeader.ReadBody(s.conn)
+		if err != nil {
+			return nil, err
 		}
 
-		if resHeader.Status != 0 {
+		missed := resHeader.Status == 1 && resHeader.Opcode != binaryOpcodeNoop
+		if resHeader.Status != 0 && !missed && failed == nil {
 			if v, ok := binaryStatus[resHeader.Status]; ok {
-				return nil, fmt.Errorf("memcached: error %s", v)
+				failed = fmt.Errorf("memcached: error %s", v)
+			} else {
+				failed = fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 			}
-			return nil, fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 		}
-
-		buf := make([]byte, resHeader.TotalBodyLength)
-		if _, err := io.ReadFull(s.conn, buf); err != nil {
-			return nil, err
+		if resHeader.Opcode == binaryOpcodeNoop {
+			break
+		}
+		if resHeader.Status != 0 {
+			continue
 		}
 
 		items = append(items, &Item{
 			Key:   string(buf[resHeader.ExtraLength : int(resHeader.ExtraLength)+int(resHeader.KeyLength)]),
 			Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 			Flags: buf[:resHeader.ExtraLength],
+			Cas:   resHeader.CAS,
 		})
 	}
+	if failed != nil {
+		return nil, failed
+	}
 
 	return items, nil
 }
-- 
2.43.0


From 840c2e114e64d1e8a0204de8e644ecb4d8a7929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 08/39] fix: reset the pooled header in the binary client's
 Increment and Decrement

The header kept the CAS token of the Set which used it before, so that the
server refused the operation with "key exists".
---
 client/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/server.go b/client/server.go
index 2212ef3..12ad65b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1578,6 +1578,7 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	binary.BigEndian.PutUint32(extra[16:20], uint32(expiration))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
+	header.Reset()
 
 	header.Opcode = opcode
 	header.KeyLength = uint16(len(key))
-- 
2.43.0


From 205909c607326f2291a76badd8ab65004e127b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 09/39] fix: send no CAS token with the binary client's Add

memcached takes an add which carries a token for a compare and swap: it refused
to add an absent key and overwrote a present one.
---
 client/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/server.go b/client/server.go
index 12ad65b..ebb6124 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1404,6 +1404,8 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 
 	header.Opcode = binaryOpcodeAdd
 	extra := item.marshalBinaryRequestHeader(header)
+	// memcached would turn an add with a CAS token into a compare and swap.
+	header.CAS = 0
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-- 
2.43.0


From b87655907e084b4bef76a3d2f3f9eb4d2d9bf8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 10/39] fix: report every refusal of a text or meta operation
 as what it is

Delete and Touch of the text client took any reply but NOT_FOUND for success,
Add and Replace took any error for ItemExists or ItemNotFound, Version returned
the text of an error as version, the meta client's Delete called a changed item
not found, and Increment, Decrement and Flush panicked on a one byte line.
---
 client/server.go | 90 +++++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 36 deletions(-)

diff --git a/client/server.go b/client/server.go
index ebb6124..784dcdd 100644
--- a/client/server.go
+++ b/client/server.go
@@ -19,14 +19,16 @@ import (
 )
 
 var (
-	crlf                 = []byte("\r\n")
-	msgTextProtoStored   = []byte("STORED\r\n")
-	msgTextProtoDeleted  = []byte("DELETED\r\n")
-	msgTextProtoNotFound = []byte("NOT_FOUND\r\n")
-	msgTextProtoTouched  = []byte("TOUCHED\r\n")
-	msgTextProtoExists   = []byte("EXISTS\r\n")
-	msgTextProtoOk       = []byte("OK\r\n")
-	msgTextProtoEnd      = []byte("END\r\n")
+	crlf                  = []byte("\r\n")
+	msgTextProtoStored    = []byte("STORED\r\n")
+	msgTextProtoNotStored = []byte("NOT_STORED\r\n")
+	msgTextProtoVersion   = []byte("VERSION ")
+	msgTextProtoDeleted   = []byte("DELETED\r\n")
+	msgTextProtoNotFound  = []byte("NOT_FOUND\r\n")
+	msgTextProtoTouched   = []byte("TOUCHED\r\n")
+	msgTextProtoExists    = []byte("EXISTS\r\n")
+	msgTextProtoOk        = []byte("OK\r\n")
+	msgTextProtoEnd       = []byte("END\r\n")
 )
 
 var (
@@ -307,6 +309,11 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 	return res, nil
 }
 
+// textProtoError is the error for a reply which is not the expected one.
+func textProtoError(reply []byte) error {
+	return fmt.Errorf("memcached: %s", bytes.TrimRight(reply, "\r\n"))
+}
+
 // readBody reads exactly n bytes. It does not trust n until the bytes arrive.
 func readBody(r io.Reader, n int) ([]byte, error) {
 	if n > 1<<20 {
@@ -365,7 +372,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
 	}
-	return nil
+	return textProtoError(b)
 }
 
 func (s *ServerWithTextProtocol) Increment(key string, delta, _ int) (int64, error) {
@@ -404,9 +411,9 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
-			return 0, err
+			return 0, textProtoError(b)
 		}
 		return i, nil
 	}
@@ -443,7 +450,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 		return merrors.ItemNotFound
 	}
 
-	return nil
+	return textProtoError(b)
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
@@ -526,11 +533,14 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemExists
+	default:
+		return textProtoError(b)
 	}
-
-	return merrors.ItemExists
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
@@ -563,11 +573,14 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemNotFound
+	default:
+		return textProtoError(b)
 	}
-
-	return merrors.ItemNotFound
 }
 
 func (s *ServerWithTextProtocol) Flush() error {
@@ -598,7 +611,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return textProtoError(b)
 	}
 }
 
@@ -627,10 +640,10 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	if len(b) > 0 {
-		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
+	if !bytes.HasPrefix(b, msgTextProtoVersion) {
+		return "", textProtoError(b)
 	}
-	return "", err
+	return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 }
 
 type ServerWithMetaProtocol struct {
@@ -919,11 +932,14 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemExists
+	default:
+		return textProtoError(b)
 	}
-
-	return merrors.ItemExists
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
@@ -953,11 +969,14 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemNotFound
+	default:
+		return textProtoError(b)
 	}
-
-	return merrors.ItemNotFound
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
@@ -986,7 +1005,7 @@ func (s *ServerWithMetaProtocol) Delete(key string) error {
 	case bytes.HasPrefix(b, msgMetaProtoNotFound):
 		return nil
 	case bytes.HasPrefix(b, msgMetaProtoExists):
-		return merrors.ItemNotFound
+		return merrors.ItemExists
 	default:
 		return errors.New("memcached: failed delete")
 	}
@@ -1028,9 +1047,9 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
-			return 0, err
+			return 0, textProtoError(b)
 		}
 		return i, nil
 	}
@@ -1089,7 +1108,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return textProtoError(b)
 	}
 }
 
@@ -1113,11 +1132,10 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	if len(b) > 0 {
-		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
+	if !bytes.HasPrefix(b, msgTextProtoVersion) {
+		return "", textProtoError(b)
 	}
-
-	return "", nil
+	return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
-- 
2.43.0


From 8392c7ffc9dbfa703d4e3f1b0ff0fbe8ddb632c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 11/39] fix: refuse keys which the protocol can't carry

The text and the meta client put keys with blanks, line breaks or no byte at
all into the command line, where they became other keys, options and commands;
the binary client truncated the length of long keys, so that the rest of the
key was taken for a value or the next request.
---
 client/server.go | 126 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 126 insertions(+)

diff --git a/client/server.go b/client/server.go
index 784dcdd..3216c7a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -68,6 +68,9 @@ const (
 	binaryOpcodeTouch byte = 28 // 0x1c
 )
 
+// maxKeyLength is the longest key of memcached's protocols.
+const maxKeyLength = 250
+
 var binaryStatus = map[uint16]string{
 	1:   "key not found",
 	2:   "key exists",
@@ -197,6 +200,10 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 }
 
 func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
+	if err := checkKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -231,6 +238,12 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkKey(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -309,6 +322,27 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 	return res, nil
 }
 
+// checkKeyLength refuses keys which memcached refuses for their length.
+func checkKeyLength(key string) error {
+	if len(key) == 0 || len(key) > maxKeyLength {
+		return fmt.Errorf("memcached: invalid length of key: %d", len(key))
+	}
+	return nil
+}
+
+// checkKey refuses keys which can't be a word of a text protocol's command.
+func checkKey(key string) error {
+	if err := checkKeyLength(key); err != nil {
+		return err
+	}
+	for i := 0; i < len(key); i++ {
+		if key[i] <= ' ' || key[i] == 0x7f {
+			return errors.New("memcached: key contains whitespace or control character")
+		}
+	}
+	return nil
+}
+
 // textProtoError is the error for a reply which is not the expected one.
 func textProtoError(reply []byte) error {
 	return fmt.Errorf("memcached: %s", bytes.TrimRight(reply, "\r\n"))
@@ -343,6 +377,10 @@ func readDataBlock(r io.Reader, size int) ([]byte, error) {
 }
 
 func (s *ServerWithTextProtocol) Delete(key string) error {
+	if err := checkKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -384,6 +422,10 @@ func (s *ServerWithTextProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := checkKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -420,6 +462,10 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
+	if err := checkKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -454,6 +500,10 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -504,6 +554,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Add(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -544,6 +598,10 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -714,6 +772,10 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 }
 
 func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
+	if err := checkKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -738,6 +800,12 @@ func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkKey(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -856,6 +924,10 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 }
 
 func (s *ServerWithMetaProtocol) Set(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -906,6 +978,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Add(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -943,6 +1019,10 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -980,6 +1060,10 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
+	if err := checkKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1024,6 +1108,10 @@ func (s *ServerWithMetaProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := checkKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1056,6 +1144,10 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
+	if err := checkKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1219,6 +1311,10 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 }
 
 func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
+	if err := checkKeyLength(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1278,6 +1374,12 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkKeyLength(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1353,6 +1455,10 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Set(item *Item) error {
+	if err := checkKeyLength(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1409,6 +1515,10 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Add(item *Item) error {
+	if err := checkKeyLength(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1467,6 +1577,10 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
+	if err := checkKeyLength(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1523,6 +1637,10 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Delete(key string) error {
+	if err := checkKeyLength(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1584,6 +1702,10 @@ func (s *ServerWithBinaryProtocol) Decrement(key string, delta, expiration int)
 }
 
 func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int, expiration int) (int64, error) {
+	if err := checkKeyLength(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1653,6 +1775,10 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 }
 
 func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
+	if err := checkKeyLength(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-- 
2.43.0


From e62f48e7e63bd720631efa679632e65adccdd140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 12/39] fix: send expirations so that memcached understands
 what was meant

The binary protocol has unsigned expirations: a negative one, which means
expired at once, became a time in the year 2106. Expirations that do not fit 32
bits were cut, possibly to 0, which means never.
---
 client/client.go | 12 ++++++++++-
 client/server.go | 54 +++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 44a579f..6267b83 100644
--- a/client/client.go
+++ b/client/client.go
@@ -16,7 +16,7 @@ type Item struct {
 
 func (i *Item) marshalBinaryRequestHeader(h *binaryRequestHeader) []byte {
 	extra := make([]byte, 8)
-	binary.BigEndian.PutUint32(extra[4:8], uint32(i.Expiration))
+	binary.BigEndian.PutUint32(extra[4:8], binaryExpiration(i.Expiration))
 	h.KeyLength = uint16(len(i.Key))
 	h.ExtraLength = uint8(len(extra))
 	h.TotalBodyLength = uint32(len(i.Key) + len(i.Value) + len(extra))
@@ -24,6 +24,16 @@ func (i *Item) marshalBinaryRequestHeader(h *binaryRequestHeader) []byte {
 	return extra
 }
 
+// binaryExpiration is the unsigned expiration of the binary protocol. There a
+// negative one would be a time in the next century, so it becomes the earliest
+// absolute time, which has passed as well.
+func binaryExpiration(expiration int) uint32 {
+	if expiration < 0 {
+		return 60*60*24*30 + 1
+	}
+	return uint32(expiration)
+}
+
 type SinglePool struct {
 	ring *Ring
 }
diff --git a/client/server.go b/client/server.go
index 3216c7a..ae82be2 100644
--- a/client/server.go
+++ b/client/server.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net"
 	"strconv"
 	"strings"
@@ -343,6 +344,14 @@ func checkKey(key string) error {
 	return nil
 }
 
+// checkExpiration refuses expirations which memcached would cut to 32 bits.
+func checkExpiration(expiration int) error {
+	if expiration < math.MinInt32 || expiration > math.MaxInt32 {
+		return fmt.Errorf("memcached: expiration out of range: %d", expiration)
+	}
+	return nil
+}
+
 // textProtoError is the error for a reply which is not the expected one.
 func textProtoError(reply []byte) error {
 	return fmt.Errorf("memcached: %s", bytes.TrimRight(reply, "\r\n"))
@@ -465,6 +474,9 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 	if err := checkKey(key); err != nil {
 		return err
 	}
+	if err := checkExpiration(expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -503,6 +515,9 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 	if err := checkKey(item.Key); err != nil {
 		return err
 	}
+	if err := checkExpiration(item.Expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -557,6 +572,9 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	if err := checkKey(item.Key); err != nil {
 		return err
 	}
+	if err := checkExpiration(item.Expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -601,6 +619,9 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	if err := checkKey(item.Key); err != nil {
 		return err
 	}
+	if err := checkExpiration(item.Expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -927,6 +948,9 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if err := checkKey(item.Key); err != nil {
 		return err
 	}
+	if err := checkExpiration(item.Expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -981,6 +1005,9 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	if err := checkKey(item.Key); err != nil {
 		return err
 	}
+	if err := checkExpiration(item.Expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -1022,6 +1049,9 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	if err := checkKey(item.Key); err != nil {
 		return err
 	}
+	if err := checkExpiration(item.Expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -1147,6 +1177,9 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 	if err := checkKey(key); err != nil {
 		return err
 	}
+	if err := checkExpiration(expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -1458,6 +1491,9 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if err := checkKeyLength(item.Key); err != nil {
 		return err
 	}
+	if err := checkExpiration(item.Expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -1518,6 +1554,9 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if err := checkKeyLength(item.Key); err != nil {
 		return err
 	}
+	if err := checkExpiration(item.Expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -1580,6 +1619,9 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 	if err := checkKeyLength(item.Key); err != nil {
 		return err
 	}
+	if err := checkExpiration(item.Expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -1705,6 +1747,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	if err := checkKeyLength(key); err != nil {
 		return 0, err
 	}
+	if err := checkExpiration(expiration); err != nil {
+		return 0, err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -1717,6 +1762,10 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	extra := make([]byte, 20)
 	binary.BigEndian.PutUint64(extra[:8], uint64(delta))
 	binary.BigEndian.PutUint64(extra[8:16], 1)
+	if expiration < 0 {
+		// Don't create the item.
+		expiration = -1
+	}
 	binary.BigEndian.PutUint32(extra[16:20], uint32(expiration))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
@@ -1778,6 +1827,9 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	if err := checkKeyLength(key); err != nil {
 		return err
 	}
+	if err := checkExpiration(expiration); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -1788,7 +1840,7 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	}
 
 	extra := make([]byte, 4)
-	binary.BigEndian.PutUint32(extra, uint32(expiration))
+	binary.BigEndian.PutUint32(extra, binaryExpiration(expiration))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
 	header.Reset()
-- 
2.43.0


From 19490bf061b9ad24f245ebb0b8ba5cf7819bacb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 13/39] fix: touch with the meta client instead of invalidating
 the item

md with I marks the item stale and changes its CAS token; mg with T replaces the
lifetime only.
---
 client/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index ae82be2..d9cce80 100644
--- a/client/server.go
+++ b/client/server.go
@@ -38,6 +38,7 @@ var (
 	msgMetaProtoStored    = []byte("HD")
 	msgMetaProtoNotStored = []byte("NS")
 	msgMetaProtoDeleted   = []byte("HD")
+	msgMetaProtoTouched   = []byte("HD")
 	msgMetaProtoExists    = []byte("EX")
 	msgMetaProtoNotFound  = []byte("NF")
 )
@@ -1189,7 +1190,7 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
-	if _, err := fmt.Fprintf(s.conn, "md %s I T%d\r\n", key, expiration); err != nil {
+	if _, err := fmt.Fprintf(s.conn, "mg %s T%d\r\n", key, expiration); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -1202,8 +1203,10 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 	}
 
 	switch {
-	case bytes.HasPrefix(b, msgMetaProtoDeleted):
+	case bytes.HasPrefix(b, msgMetaProtoTouched):
 		return nil
+	case bytes.Equal(b, msgMetaProtoEnd):
+		return merrors.ItemNotFound
 	default:
 		return errors.New("memcached: failed touch")
 	}
-- 
2.43.0


From 19274437934b27e0e4e003836c0cdc9f46fba39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 14/39] fix: do not use a connection after a reply that was cut
 short or late

After a timeout the late reply was taken for the reply to the next request, and
so on for every call that followed.
---
 client/server.go | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/client/server.go b/client/server.go
index d9cce80..3f1cf4d 100644
--- a/client/server.go
+++ b/client/server.go
@@ -154,7 +154,7 @@ func NewServerWithTextProtocol(ctx context.Context, name, network, addr string,
 		Network: network,
 		Addr:    addr,
 		closeCh: make(chan struct{}),
-		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
+		conn:    newConnBuffer(conn),
 		raw:     conn,
 	}
 
@@ -197,7 +197,7 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 		return err
 	}
 	s.raw = conn
-	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
+	s.conn = newConnBuffer(conn)
 	return nil
 }
 
@@ -324,6 +324,41 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 	return res, nil
 }
 
+// brokenConn is a connection that stays broken after its first error. Once a
+// reply was cut short or given up waiting for, it can't be told which request
+// the bytes that follow belong to.
+type brokenConn struct {
+	net.Conn
+	err error
+}
+
+func newConnBuffer(conn net.Conn) *bufio.ReadWriter {
+	c := &brokenConn{Conn: conn}
+	return bufio.NewReadWriter(bufio.NewReader(c), bufio.NewWriter(c))
+}
+
+func (c *brokenConn) Read(b []byte) (int, error) {
+	if c.err != nil {
+		return 0, c.err
+	}
+	n, err := c.Conn.Read(b)
+	if err != nil {
+		c.err = err
+	}
+	return n, err
+}
+
+func (c *brokenConn) Write(b []byte) (int, error) {
+	if c.err != nil {
+		return 0, c.err
+	}
+	n, err := c.Conn.Write(b)
+	if err != nil {
+		c.err = err
+	}
+	return n, err
+}
+
 // checkKeyLength refuses keys which memcached refuses for their length.
 func checkKeyLength(key string) error {
 	if len(key) == 0 || len(key) > maxKeyLength {
@@ -758,7 +793,7 @@ func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string,
 		Network: network,
 		Addr:    addr,
 		closeCh: make(chan struct{}),
-		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
+		conn:    newConnBuffer(conn),
 		raw:     conn,
 	}
 
@@ -789,7 +824,7 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 		return err
 	}
 	s.raw = conn
-	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
+	s.conn = newConnBuffer(conn)
 	return nil
 }
 
@@ -1305,7 +1340,7 @@ func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string
 		Network: network,
 		Addr:    addr,
 		closeCh: make(chan struct{}),
-		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
+		conn:    newConnBuffer(conn),
 		raw:     conn,
 		reqHeaderPool: &sync.Pool{New: func() interface{} {
 			return newBinaryRequestHeader()
@@ -1342,7 +1377,7 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 		return err
 	}
 	s.raw = conn
-	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
+	s.conn = newConnBuffer(conn)
 	return nil
 }
 
-- 
2.43.0


From 0643e869e0da70d8de808f79600000478925f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 15/39] fix: let Reconnect succeed after a Reconnect that
 failed

A failed Reconnect leaves a closed connection behind, and closing it again
failed every Reconnect from then on.
---
 client/server.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/client/server.go b/client/server.go
index 3f1cf4d..175da7f 100644
--- a/client/server.go
+++ b/client/server.go
@@ -186,9 +186,8 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// The connection may be closed already if reconnecting failed before.
+		s.raw.Close()
 	}
 
 	d := &net.Dialer{}
@@ -813,9 +812,8 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// The connection may be closed already if reconnecting failed before.
+		s.raw.Close()
 	}
 
 	d := &net.Dialer{}
@@ -1366,9 +1364,8 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// The connection may be closed already if reconnecting failed before.
+		s.raw.Close()
 	}
 
 	d := &net.Dialer{}
-- 
2.43.0


From 3a54ccc6b874e7ad38c20543a970f24290591741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 16/39] fix: make the heartbeat repeat and Close end it

The heartbeat fired only once, gave up after the first Reconnect that failed
and, with the meta and the binary client, went on after Close. Close of the text
client changed the connection under running operations; it and a Reconnect
could also bring a closed client back.
---
 client/server.go | 91 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 75 insertions(+), 16 deletions(-)

diff --git a/client/server.go b/client/server.go
index 175da7f..d605219 100644
--- a/client/server.go
+++ b/client/server.go
@@ -132,6 +132,7 @@ type ServerWithTextProtocol struct {
 	conn    *bufio.ReadWriter
 	closeCh chan struct{}
 	raw     net.Conn
+	closeMu sync.Mutex // for raw and closeCh
 	mu      sync.Mutex
 }
 
@@ -170,24 +171,29 @@ func (s *ServerWithTextProtocol) Name() string {
 }
 
 func (s *ServerWithTextProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
 	if s.closeCh == nil {
 		return errors.New("memcached: already closed")
 	}
 
-	err := s.raw.Close()
-	s.raw = nil
 	close(s.closeCh)
 	s.closeCh = nil
-	return err
+	return s.raw.Close()
 }
 
 func (s *ServerWithTextProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw != nil {
-		// The connection may be closed already if reconnecting failed before.
-		s.raw.Close()
+	s.closeMu.Lock()
+	closed := s.closeCh == nil
+	// The connection may be closed already if reconnecting failed before.
+	s.raw.Close()
+	s.closeMu.Unlock()
+	if closed {
+		return errors.New("memcached: closed")
 	}
 
 	d := &net.Dialer{}
@@ -195,6 +201,14 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh == nil {
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
 	s.raw = conn
 	s.conn = newConnBuffer(conn)
 	return nil
@@ -770,6 +784,7 @@ type ServerWithMetaProtocol struct {
 	closeCh chan struct{}
 	conn    *bufio.ReadWriter
 	raw     net.Conn
+	closeMu sync.Mutex // for raw and closeCh
 	mu      sync.Mutex
 }
 
@@ -811,9 +826,13 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw != nil {
-		// The connection may be closed already if reconnecting failed before.
-		s.raw.Close()
+	s.closeMu.Lock()
+	closed := s.closeCh == nil
+	// The connection may be closed already if reconnecting failed before.
+	s.raw.Close()
+	s.closeMu.Unlock()
+	if closed {
+		return errors.New("memcached: closed")
 	}
 
 	d := &net.Dialer{}
@@ -821,6 +840,14 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh == nil {
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
 	s.raw = conn
 	s.conn = newConnBuffer(conn)
 	return nil
@@ -1300,6 +1327,15 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh == nil {
+		return errors.New("memcached: already closed")
+	}
+
+	close(s.closeCh)
+	s.closeCh = nil
 	return s.raw.Close()
 }
 
@@ -1314,6 +1350,7 @@ type ServerWithBinaryProtocol struct {
 	mu      sync.Mutex
 	conn    *bufio.ReadWriter
 	raw     net.Conn
+	closeMu sync.Mutex // for raw and closeCh
 
 	reqHeaderPool *sync.Pool
 	resHeaderPool *sync.Pool
@@ -1363,9 +1400,13 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw != nil {
-		// The connection may be closed already if reconnecting failed before.
-		s.raw.Close()
+	s.closeMu.Lock()
+	closed := s.closeCh == nil
+	// The connection may be closed already if reconnecting failed before.
+	s.raw.Close()
+	s.closeMu.Unlock()
+	if closed {
+		return errors.New("memcached: closed")
 	}
 
 	d := &net.Dialer{}
@@ -1373,6 +1414,14 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh == nil {
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
 	s.raw = conn
 	s.conn = newConnBuffer(conn)
 	return nil
@@ -2007,6 +2056,15 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh == nil {
+		return errors.New("memcached: already closed")
+	}
+
+	close(s.closeCh)
+	s.closeCh = nil
 	return s.raw.Close()
 }
 
@@ -2110,7 +2168,8 @@ func (h *binaryResponseHeader) ReadBody(r io.Reader) ([]byte, error) {
 }
 
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
-	ticker := time.NewTimer(interval)
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 	for {
 		select {
 		case <-closeCh:
@@ -2119,11 +2178,11 @@ func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan
 			_, err := s.Version()
 			if err != nil {
 				if reconnect {
-					if err := s.Reconnect(); err != nil {
-						return
-					}
+					// The server may be back at the next tick.
+					_ = s.Reconnect()
 				} else {
 					s.Close()
+					return
 				}
 			}
 		}
-- 
2.43.0


From aa76c0364f1f62275683fc8642211c9829470d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 17/39] fix: pick the server of the point that a key hashes
 onto

On an exact match Pick used the upper bound of the search, some unrelated node
that depends on the whole ring, and with several servers at one point the order
in which the servers were listed decided.
---
 client/ring.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/ring.go b/client/ring.go
index 02193c0..a15d3bc 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -35,6 +35,9 @@ func NewRing(servers ...Server) *Ring {
 	}
 
 	sort.Slice(nodes, func(i, j int) bool {
+		if nodes[i].hash == nodes[j].hash {
+			return nodes[i].Server.Name() < nodes[j].Server.Name()
+		}
 		return nodes[i].hash < nodes[j].hash
 	})
 
@@ -61,6 +64,10 @@ Search:
 		t := r.nodes[idx].hash
 		switch {
 		case t == h:
+			upper = idx
+			for upper+1 < len(r.nodes) && r.nodes[upper+1].hash == h {
+				upper++
+			}
 			break Search
 		case h < t:
 			upper = idx - 1
-- 
2.43.0


From 00c77cc96c65ac7771c0775ac072450cb4da8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 18/39] fix: close all servers of a SinglePool even if closing
 one fails

---
 client/client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 6267b83..abb0cc3 100644
--- a/client/client.go
+++ b/client/client.go
@@ -119,7 +119,5 @@ func (c *SinglePool) Version() (map[string]string, error) {
 }
 
 func (c *SinglePool) Close() error {
-	return c.ring.Each(func(s Server) error {
-		return s.Close()
-	})
+	return c.ring.Close()
 }
-- 
2.43.0


From 55a3737595ba364cd2a6a3385661e5a81b726b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 19/39] fix: replicate items without the CAS token of the
 primary

The secondary has tokens of its own: a Set with a token stored the item on the
primary and then failed, or, worse, was refused or accepted by chance.
---
 cluster/cluster.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 63b5830..07563c9 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -58,7 +58,7 @@ func (p *ReplicaPool) Set(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.replicate(item)
 }
 
 func (p *ReplicaPool) Add(item *client.Item) error {
@@ -66,7 +66,7 @@ func (p *ReplicaPool) Add(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.replicate(item)
 }
 
 func (p *ReplicaPool) Replace(item *client.Item) error {
@@ -74,7 +74,7 @@ func (p *ReplicaPool) Replace(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.replicate(item)
 }
 
 func (p *ReplicaPool) Delete(key string) error {
@@ -128,3 +128,11 @@ func (p *ReplicaPool) Decrement(key string, delta, expiration int) (int64, error
 	}
 	return n, nil
 }
+
+// replicate stores the item on the secondary whatever is there. The CAS token
+// of an item is of use on the primary only.
+func (p *ReplicaPool) replicate(item *client.Item) error {
+	i := *item
+	i.Cas = 0
+	return p.secondary.Pick(item.Key).Set(&i)
+}
-- 
2.43.0


From ddf94548dcb4d5ed508b428e9f287961f916f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 20/39] fix: copy the lifetime of a counter to the secondary

An item without expiration (reported as -1) was stored expired and a lifetime
of more than 30 days was taken for a time in 1970.
---
 cluster/cluster.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 07563c9..fbb6649 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -1,6 +1,9 @@
 package cluster
 
 import (
+	"math"
+	"time"
+
 	"go.f110.dev/go-memcached/client"
 )
 
@@ -98,7 +101,7 @@ func (p *ReplicaPool) Increment(key string, delta, expiration int) (int64, error
 	err = p.secondary.Pick(key).Set(&client.Item{
 		Key:        key,
 		Value:      item.Value,
-		Expiration: item.Expiration,
+		Expiration: expirationOf(item),
 		Flags:      item.Flags,
 	})
 	if err != nil {
@@ -120,7 +123,7 @@ func (p *ReplicaPool) Decrement(key string, delta, expiration int) (int64, error
 	err = p.secondary.Pick(key).Set(&client.Item{
 		Key:        key,
 		Value:      item.Value,
-		Expiration: item.Expiration,
+		Expiration: expirationOf(item),
 		Flags:      item.Flags,
 	})
 	if err != nil {
@@ -129,6 +132,22 @@ func (p *ReplicaPool) Decrement(key string, delta, expiration int) (int64, error
 	return n, nil
 }
 
+// expirationOf is the expiration to set for the remaining lifetime that
+// reading the item reported.
+func expirationOf(item *client.Item) int {
+	switch {
+	case item.Expiration < 0: // No expiration
+		return 0
+	case item.Expiration > 60*60*24*30: // Has to be an absolute time
+		at := time.Now().Unix() + int64(item.Expiration)
+		if at > math.MaxInt32 { // The last time that memcached understands
+			at = math.MaxInt32
+		}
+		return int(at)
+	}
+	return item.Expiration
+}
+
 // replicate stores the item on the secondary whatever is there. The CAS token
 // of an item is of use on the primary only.
 func (p *ReplicaPool) replicate(item *client.Item) error {
-- 
2.43.0


From fd85f591fbec401da0a5b4b3fc71f1a1b5e30a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 21/39] fix: do not let a malformed text request crash the
 server or get through

Negative sizes and empty options made the connection's goroutine panic, which
ends the whole process; announced sizes and lines without an end took memory
at will; a data block without its CRLF was stored and left the rest of it to be
read as commands; and the key of a line that ends with a bare LF included it.
---
 server/server.go | 90 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 79 insertions(+), 11 deletions(-)

diff --git a/server/server.go b/server/server.go
index 0fa64ce..397fcca 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -58,6 +59,11 @@ var (
 
 var crlf = []byte("\r\n")
 
+const (
+	maxKeyLength  = 250
+	maxLineLength = 1 << 20
+)
+
 type Protocol string
 
 type conn struct {
@@ -114,14 +120,23 @@ func (c *conn) readRequest() (*Request, error) {
 }
 
 func (c *conn) readAsciiRequest() (*Request, error) {
-	line, err := c.connBuf.ReadBytes('\n')
+	line, err := c.readLine()
 	if err != nil {
 		return nil, err
 	}
-	s := strings.Split(strings.TrimSuffix(string(line), "\r\n"), " ")
+	// As in memcached, several blanks separate like one.
+	s := strings.FieldsFunc(line, func(r rune) bool { return r == ' ' })
 	if len(s) == 0 {
 		return nil, errors.New("server: invalid request")
 	}
+	for _, v := range s {
+		if strings.IndexFunc(v, func(r rune) bool { return r < ' ' || r == 0x7f }) != -1 {
+			return nil, errors.New("server: invalid request")
+		}
+	}
+	if len(s) > 1 && len(s[1]) > maxKeyLength {
+		return nil, errors.New("server: invalid request")
+	}
 
 	switch s[0] {
 	case "get":
@@ -130,6 +145,14 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 		return &Request{Opcode: OpcodeGet, Key: s[1]}, nil
 	case "gets":
+		if len(s) < 2 {
+			return nil, errors.New("server: invalid request")
+		}
+		for _, key := range s[1:] {
+			if len(key) > maxKeyLength {
+				return nil, errors.New("server: invalid request")
+			}
+		}
 		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
 	case "set", "add", "replace":
 		if len(s) != 5 {
@@ -146,15 +169,14 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, err
 		}
 
-		bufLen, err := strconv.ParseInt(s[4], 10, 32)
+		bufLen, err := strconv.ParseUint(s[4], 10, 31)
 		if err != nil {
 			return nil, err
 		}
-		buf := make([]byte, bufLen+2)
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readDataBlock(int(bufLen))
+		if err != nil {
 			return nil, err
 		}
-		buf = buf[:bufLen]
 
 		opcode := OpcodeSet
 		switch s[0] {
@@ -227,7 +249,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, errors.New("server: invalid request")
 		}
 		tokens := s[3:]
-		v, err := strconv.ParseUint(s[2], 10, 32)
+		v, err := strconv.ParseUint(s[2], 10, 31)
 		if err != nil {
 			return nil, err
 		}
@@ -261,7 +283,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 				case 'q':
 					opt.NoReply = true
 				case 'S':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseUint(f[1:], 10, 31)
 					if err != nil {
 						return nil, err
 					}
@@ -276,11 +298,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			}
 		}
 
-		buf := make([]byte, opt.Size+2)
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readDataBlock(opt.Size)
+		if err != nil {
 			return nil, err
 		}
-		buf = buf[:opt.Size]
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
@@ -292,6 +313,53 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	return nil, errors.New("server: invalid request")
 }
 
+// readLine reads a line of bounded length, without its end.
+func (c *conn) readLine() (string, error) {
+	var line []byte
+	for {
+		b, err := c.connBuf.ReadSlice('\n')
+		line = append(line, b...)
+		if err == nil {
+			break
+		}
+		if err != bufio.ErrBufferFull {
+			return "", err
+		}
+		if len(line) > maxLineLength {
+			return "", errors.New("server: too long line")
+		}
+	}
+	return strings.TrimSuffix(strings.TrimSuffix(string(line), "\n"), "\r"), nil
+}
+
+// readBody reads exactly n bytes. It does not trust n until the bytes arrive.
+func (c *conn) readBody(n int) ([]byte, error) {
+	if n > 1<<20 {
+		buf := new(bytes.Buffer)
+		if _, err := io.CopyN(buf, c.connBuf, int64(n)); err != nil {
+			return nil, err
+		}
+		return buf.Bytes(), nil
+	}
+	buf := make([]byte, n)
+	if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		return nil, err
+	}
+	return buf, nil
+}
+
+// readDataBlock reads n bytes and the CRLF that has to follow them.
+func (c *conn) readDataBlock(n int) ([]byte, error) {
+	buf, err := c.readBody(n + len(crlf))
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(buf[n:], crlf) {
+		return nil, errors.New("server: bad data block")
+	}
+	return buf[:n], nil
+}
+
 func (c *conn) readBinaryRequest() (*Request, error) {
 	header := make([]byte, 24)
 	if _, err := io.ReadFull(c.connBuf, header); err != nil {
-- 
2.43.0


From ee1fad90c7e6ace4104134e0441a176079031116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 22/39] fix: read exactly the announced body of a binary
 request

Lengths which contradict each other and extras that are too short made the
connection's goroutine panic, which ends the whole process. Extras, keys and
values an operation does not need were left to be read as the next request.
---
 server/server.go | 78 ++++++++++++++++--------------------------------
 1 file changed, 26 insertions(+), 52 deletions(-)

diff --git a/server/server.go b/server/server.go
index 397fcca..db7f0b0 100644
--- a/server/server.go
+++ b/server/server.go
@@ -369,71 +369,52 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		return nil, errors.New("server: invalid request")
 	}
 
-	switch Opcode(header[1]) {
-	case OpcodeGet:
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
+	// The whole body belongs to this request, whatever is needed of it.
+	KeyLength := int(binary.BigEndian.Uint16(header[2:4]))
+	totalBodyLen := binary.BigEndian.Uint32(header[8:12])
+	if uint32(header[4])+uint32(KeyLength) > totalBodyLen {
+		return nil, errors.New("server: invalid request")
+	}
+	body, err := c.readBody(int(totalBodyLen))
+	if err != nil {
+		return nil, err
+	}
+	if KeyLength == 0 {
+		switch Opcode(header[1]) {
+		case OpcodeNoop, OpcodeVersion, OpcodeFlush:
+		default:
+			return nil, errors.New("server: invalid request")
 		}
+	}
+	extra, keyBuf, buf := body[:header[4]], body[header[4]:int(header[4])+KeyLength], body[int(header[4])+KeyLength:]
 
+	switch Opcode(header[1]) {
+	case OpcodeGet:
 		return &Request{Opcode: OpcodeGet, Key: string(keyBuf)}, nil
 	case OpcodeGetKQ:
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
 		return &Request{Opcode: OpcodeGet, Key: string(keyBuf), GetOpt: &GetOpt{NoReply: true, Key: true}}, nil
 	case OpcodeSet, OpcodeAdd, OpcodeReplace:
-		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
-			return nil, err
+		if len(extra) != 8 {
+			return nil, errors.New("server: invalid request")
 		}
 		expiration := binary.BigEndian.Uint32(extra[4:8])
 
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
-		totalBodyLen := binary.BigEndian.Uint32(header[8:12])
-		buf := make([]byte, int(totalBodyLen)-len(extra)-int(KeyLength))
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
-			return nil, err
-		}
-
 		return &Request{
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Value:  buf,
 			SetOpt: &SetOpt{Expiration: int(expiration)},
-			Flags:  extra[:4],
+			Flags:  extra[:4:4],
 		}, nil
 	case OpcodeDelete:
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
 		return &Request{Opcode: OpcodeDelete, Key: string(keyBuf)}, nil
 	case OpcodeIncrement, OpcodeDecrement:
-		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
-			return nil, err
+		if len(extra) != 20 {
+			return nil, errors.New("server: invalid request")
 		}
 		delta := binary.BigEndian.Uint64(extra[:8])
 		expiration := binary.BigEndian.Uint32(extra[16:20])
 
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
 		return &Request{
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
@@ -441,18 +422,11 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			SetOpt: &SetOpt{Expiration: int(expiration)},
 		}, nil
 	case OpcodeTouch:
-		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
-			return nil, err
+		if len(extra) != 4 {
+			return nil, errors.New("server: invalid request")
 		}
 		expiration := binary.BigEndian.Uint32(extra[:4])
 
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
 		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
 	case OpcodeNoop, OpcodeVersion, OpcodeFlush:
 		return &Request{Opcode: Opcode(header[1])}, nil
-- 
2.43.0


From d2d6a76ab0911eae40b5b2d25b2dfaa9869ee013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 23/39] fix: pass the numbers of a request to the handler as
 they were sent

Flags from 2^31 and deltas that do not fit 32 bits closed the connection, the
expiration of a text touch was not where that of the other protocols is, and the
CAS token of a binary request was lost, which made the set unconditional.
---
 server/server.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/server/server.go b/server/server.go
index db7f0b0..f3f075e 100644
--- a/server/server.go
+++ b/server/server.go
@@ -158,7 +158,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
 		}
-		f, err := strconv.ParseInt(s[2], 10, 32)
+		f, err := strconv.ParseUint(s[2], 10, 32)
 		if err != nil {
 			return nil, err
 		}
@@ -200,18 +200,22 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		d, err := strconv.ParseInt(s[2], 10, 32)
+		if s[0] == "touch" {
+			expiration, err := strconv.ParseInt(s[2], 10, 32)
+			if err != nil {
+				return nil, err
+			}
+			return &Request{Opcode: OpcodeTouch, Key: s[1], Delta: expiration, SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
+		}
+		d, err := strconv.ParseUint(s[2], 10, 63)
 		if err != nil {
 			return nil, err
 		}
 		opcode := OpcodeIncrement
-		switch s[0] {
-		case "decr":
+		if s[0] == "decr" {
 			opcode = OpcodeDecrement
-		case "touch":
-			opcode = OpcodeTouch
 		}
-		return &Request{Opcode: opcode, Key: s[1], Delta: d}, nil
+		return &Request{Opcode: opcode, Key: s[1], Delta: int64(d)}, nil
 	case "mg":
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
@@ -265,7 +269,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					}
 					opt.CasValue = v
 				case 'F':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseUint(f[1:], 10, 32)
 					if err != nil {
 						return nil, err
 					}
@@ -398,28 +402,34 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, errors.New("server: invalid request")
 		}
 		expiration := binary.BigEndian.Uint32(extra[4:8])
+		cas := binary.BigEndian.Uint64(header[16:24])
 
 		return &Request{
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Value:  buf,
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(expiration), Cas: cas != 0, CasValue: cas},
 			Flags:  extra[:4:4],
 		}, nil
 	case OpcodeDelete:
-		return &Request{Opcode: OpcodeDelete, Key: string(keyBuf)}, nil
+		req := &Request{Opcode: OpcodeDelete, Key: string(keyBuf)}
+		if cas := binary.BigEndian.Uint64(header[16:24]); cas != 0 {
+			req.SetOpt = &SetOpt{Cas: true, CasValue: cas}
+		}
+		return req, nil
 	case OpcodeIncrement, OpcodeDecrement:
 		if len(extra) != 20 {
 			return nil, errors.New("server: invalid request")
 		}
 		delta := binary.BigEndian.Uint64(extra[:8])
 		expiration := binary.BigEndian.Uint32(extra[16:20])
+		cas := binary.BigEndian.Uint64(header[16:24])
 
 		return &Request{
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Delta:  int64(delta),
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(expiration), Cas: cas != 0, CasValue: cas},
 		}, nil
 	case OpcodeTouch:
 		if len(extra) != 4 {
-- 
2.43.0


From 67485c4ffde4f1dce87a203393343d30eaccfe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 24/39] fix: understand and answer the flags of mg and ms

Only the first flag of mg was looked at and the answer had the flags in one
word, as in an early draft; this repository's own client got neither flags nor
CAS token nor lifetime. Flags which make a request another operation or change
the item were ignored; they are refused now.
---
 server/server.go | 87 ++++++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 43 deletions(-)

diff --git a/server/server.go b/server/server.go
index f3f075e..9948e12 100644
--- a/server/server.go
+++ b/server/server.go
@@ -55,6 +55,7 @@ var (
 	metaProtoEnd     = []byte("EN\r\n")
 	metaProtoStored  = []byte("HD")
 	metaProtoDeleted = []byte("HD")
+	metaProtoHit     = []byte("HD")
 )
 
 var crlf = []byte("\r\n")
@@ -220,31 +221,31 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		opt := &GetOpt{Meta: true, RequestFlag: s[2]}
-		if len(s[2]) > 0 {
-			for _, f := range s[2] {
-				switch f {
-				case 'c':
-					opt.Cas = true
-				case 'f':
-					opt.Flag = true
-				case 'h':
-					opt.Hit = true
-				case 'k':
-					opt.Key = true
-				case 'l':
-					opt.LastAccess = true
-				case 'o':
-					opt.WithOpaque = true
-				case 'q':
-					opt.NoReply = true
-				case 's':
-					opt.Size = true
-				case 't':
-					opt.TTL = true
-				case 'v':
-					opt.Value = true
-				}
+		opt := &GetOpt{Meta: true, RequestFlag: strings.Join(s[2:], " ")}
+		for _, f := range s[2:] {
+			switch f[0] {
+			case 'c':
+				opt.Cas = true
+			case 'f':
+				opt.Flag = true
+			case 'h':
+				opt.Hit = true
+			case 'k':
+				opt.Key = true
+			case 'l':
+				opt.LastAccess = true
+			case 'O', 'o':
+				opt.WithOpaque = true
+			case 'q':
+				opt.NoReply = true
+			case 's':
+				opt.Size = true
+			case 't':
+				opt.TTL = true
+			case 'v':
+				opt.Value = true
+			default: // What would change the item or the key
+				return nil, errors.New("server: unsupported meta flag")
 			}
 		}
 		return &Request{Opcode: OpcodeGet, Key: s[1], GetOpt: opt}, nil
@@ -261,6 +262,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s[2]) > 0 {
 			for _, f := range tokens {
 				switch f[0] {
+				case 'M', 'b': // Not a set, or not this key
+					return nil, errors.New("server: unsupported meta flag")
 				case 'C':
 					opt.Cas = true
 					v, err := strconv.ParseUint(f[1:], 10, 64)
@@ -699,27 +702,25 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 	if len(r.Flags) > 0 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
-	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VA %d %s",
-			len(r.Value),
-			req.GetOpt.RequestFlag,
-		),
-	)
-	if err != nil {
-		return err
+	if req.GetOpt.Value {
+		conn.connBuf.WriteString("VA " + strconv.Itoa(len(r.Value)))
+	} else {
+		conn.connBuf.Write(metaProtoHit)
 	}
-	for _, v := range req.GetOpt.RequestFlag {
-		switch v {
+	for _, v := range strings.Split(req.GetOpt.RequestFlag, " ") {
+		switch v[0] {
 		case 'c':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.Cas, 10))
+			conn.connBuf.WriteString(" c" + strconv.FormatUint(uint64(r.Cas), 10))
 		case 'f':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(flag), 10))
+			conn.connBuf.WriteString(" f" + strconv.FormatUint(uint64(flag), 10))
 		case 'k':
-			conn.connBuf.WriteString(" " + req.Key)
+			conn.connBuf.WriteString(" k" + req.Key)
+		case 'O':
+			conn.connBuf.WriteString(" " + v)
 		case 's':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(len(r.Value)), 10))
+			conn.connBuf.WriteString(" s" + strconv.Itoa(len(r.Value)))
 		case 't':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.TTL, 10))
+			conn.connBuf.WriteString(" t" + strconv.FormatInt(r.TTL, 10))
 		}
 	}
 	conn.connBuf.Write(crlf)
@@ -727,9 +728,9 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 		if _, err := conn.connBuf.Write(r.Value); err != nil {
 			return err
 		}
-	}
-	if _, err := conn.connBuf.Write(crlf); err != nil {
-		return err
+		if _, err := conn.connBuf.Write(crlf); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From f108cfcd7633c16abd675f50b14578175e6e7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 25/39] fix: answer requests which the handler refused

An error of the handler's response was taken for an empty hit by get, and for
every other operation no answer was sent at all, so that the client waited for
ever or took the next answer for its own. A binary get without a response was
not answered either, and other operations without one panicked.
---
 server/BUILD.bazel |  1 +
 server/server.go   | 79 +++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 76 insertions(+), 4 deletions(-)

diff --git a/server/BUILD.bazel b/server/BUILD.bazel
index e173b6a..852f864 100644
--- a/server/BUILD.bazel
+++ b/server/BUILD.bazel
@@ -5,6 +5,7 @@ go_library(
     srcs = ["server.go"],
     importpath = "go.f110.dev/go-memcached/server",
     visibility = ["//visibility:public"],
+    deps = ["//errors:go_default_library"],
 )
 
 go_test(
diff --git a/server/server.go b/server/server.go
index 9948e12..ccb8ce0 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,8 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+
+	merrors "go.f110.dev/go-memcached/errors"
 )
 
 const (
@@ -60,6 +62,13 @@ var (
 
 var crlf = []byte("\r\n")
 
+const (
+	statusNotFound      uint16 = 0x01
+	statusExists        uint16 = 0x02
+	statusNotStored     uint16 = 0x05
+	statusInternalError uint16 = 0x84
+)
+
 const (
 	maxKeyLength  = 250
 	maxLineLength = 1 << 20
@@ -581,10 +590,24 @@ func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error
 }
 
 func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) error {
+	if req.Opcode != OpcodeGet && len(res) == 0 {
+		return errors.New("server: no response")
+	}
+	for _, r := range res {
+		if r.Error == nil || (req.Opcode == OpcodeGet && errorStatus(r.Error) == statusNotFound) {
+			continue
+		}
+		conn.connBuf.WriteString(asciiError(req, r.Error))
+		return conn.connBuf.Flush()
+	}
+
 	switch req.Opcode {
 	case OpcodeGet:
 		if req.GetOpt == nil {
 			for _, r := range res {
+				if r.Error != nil {
+					continue
+				}
 				if err := s.writeAsciiResponseGet(conn, r); err != nil {
 					return err
 				}
@@ -594,12 +617,17 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 				return err
 			}
 		} else {
+			hit := false
 			for _, r := range res {
+				if r.Error != nil {
+					continue
+				}
+				hit = true
 				if err := s.writeAsciiResponseMetaGet(conn, req, r); err != nil {
 					return err
 				}
 			}
-			if len(res) == 0 {
+			if !hit {
 				conn.connBuf.Write(metaProtoEnd)
 			}
 			if err := conn.connBuf.Flush(); err != nil {
@@ -673,6 +701,35 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	return nil
 }
 
+func errorStatus(err error) uint16 {
+	var e *merrors.MemcachedError
+	if errors.As(err, &e) && e.Status != 0 {
+		return e.Status
+	}
+	return statusInternalError
+}
+
+// asciiError is the reply for a request that failed.
+func asciiError(req *Request, err error) string {
+	meta := (req.SetOpt != nil && req.SetOpt.Meta) || (req.DelOpt != nil && req.DelOpt.Meta)
+	store := req.Opcode == OpcodeAdd || req.Opcode == OpcodeReplace
+	switch status := errorStatus(err); {
+	case status == statusNotFound && meta:
+		return "NF\r\n"
+	case status == statusExists && meta:
+		return "EX\r\n"
+	case status == statusNotStored && meta:
+		return "NS\r\n"
+	case (status == statusNotFound || status == statusExists) && store, status == statusNotStored:
+		return "NOT_STORED\r\n"
+	case status == statusNotFound:
+		return "NOT_FOUND\r\n"
+	case status == statusExists:
+		return "EXISTS\r\n"
+	}
+	return "SERVER_ERROR " + strings.NewReplacer("\r", " ", "\n", " ").Replace(err.Error()) + "\r\n"
+}
+
 func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) > 0 {
@@ -737,6 +794,12 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 }
 
 func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response) error {
+	if len(res) == 0 {
+		if req.Opcode != OpcodeGet {
+			return errors.New("server: no response")
+		}
+		res = []*Response{{Error: merrors.ItemNotFound}}
+	}
 	switch req.Opcode {
 	case OpcodeGet:
 		for _, v := range res {
@@ -752,9 +815,7 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 		}
 	case OpcodeSet, OpcodeAdd, OpcodeReplace, OpcodeDelete, OpcodeIncrement, OpcodeDecrement,
 		OpcodeVersion, OpcodeFlush, OpcodeTouch, OpcodeNoop:
-		if res[0].Error == nil {
-			return res[0].writeAsBinaryProtocol(conn, req)
-		}
+		return res[0].writeAsBinaryProtocol(conn, req)
 	default:
 		return errors.New("memcached: unknown opcode")
 	}
@@ -763,11 +824,21 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 }
 
 func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
+	status := uint16(0)
+	if r.Error != nil {
+		status = errorStatus(r.Error)
+		if req.Opcode == OpcodeGet && req.GetOpt != nil && req.GetOpt.NoReply && status == statusNotFound {
+			return nil
+		}
+		r = &Response{Value: []byte(r.Error.Error())}
+	}
+
 	header := make([]byte, 24)
 	header[0] = magicResponse
 	header[1] = byte(req.Opcode)
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
 	header[4] = uint8(len(r.Flags))
+	binary.BigEndian.PutUint16(header[6:8], status)
 	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
 
 	conn.connBuf.Write(header)
-- 
2.43.0


From d6d6148612f3e9052b351d07fb7064e677ec6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 26/39] fix: echo opcode and opaque value in binary responses
 and send the CAS token

Clients match responses by the opaque value and get quiet gets answered with
another opcode; hits without flags lacked the extras a get response always has.
---
 server/server.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/server/server.go b/server/server.go
index ccb8ce0..a1a69fd 100644
--- a/server/server.go
+++ b/server/server.go
@@ -376,7 +376,7 @@ func (c *conn) readDataBlock(n int) ([]byte, error) {
 	return buf[:n], nil
 }
 
-func (c *conn) readBinaryRequest() (*Request, error) {
+func (c *conn) readBinaryRequest() (req *Request, err error) {
 	header := make([]byte, 24)
 	if _, err := io.ReadFull(c.connBuf, header); err != nil {
 		return nil, err
@@ -395,6 +395,12 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if req != nil {
+			req.binaryOpcode = header[1]
+			req.opaque = binary.BigEndian.Uint32(header[12:16])
+		}
+	}()
 	if KeyLength == 0 {
 		switch Opcode(header[1]) {
 		case OpcodeNoop, OpcodeVersion, OpcodeFlush:
@@ -473,6 +479,10 @@ type Request struct {
 	GetOpt *GetOpt
 	SetOpt *SetOpt
 	DelOpt *DelOpt
+
+	// For the response of the binary protocol
+	binaryOpcode byte
+	opaque       uint32
 }
 
 type Response struct {
@@ -809,7 +819,7 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 		}
 		if len(res) > 1 {
 			r := &Response{}
-			if err := r.writeAsBinaryProtocol(conn, &Request{Opcode: OpcodeNoop}); err != nil {
+			if err := r.writeAsBinaryProtocol(conn, &Request{Opcode: OpcodeNoop, binaryOpcode: byte(OpcodeNoop)}); err != nil {
 				return err
 			}
 		}
@@ -835,15 +845,21 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 
 	header := make([]byte, 24)
 	header[0] = magicResponse
-	header[1] = byte(req.Opcode)
+	header[1] = req.binaryOpcode
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
-	header[4] = uint8(len(r.Flags))
 	binary.BigEndian.PutUint16(header[6:8], status)
-	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
+	flags := r.Flags
+	if req.Opcode == OpcodeGet && status == 0 && len(flags) != 4 {
+		flags = make([]byte, 4)
+	}
+	header[4] = uint8(len(flags))
+	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(flags)+len(r.Value)))
+	binary.BigEndian.PutUint32(header[12:16], req.opaque)
+	binary.BigEndian.PutUint64(header[16:24], uint64(r.Cas))
 
 	conn.connBuf.Write(header)
-	if len(r.Flags) > 0 {
-		conn.connBuf.Write(r.Flags)
+	if len(flags) > 0 {
+		conn.connBuf.Write(flags)
 	}
 	if len(r.Key) > 0 {
 		conn.connBuf.Write([]byte(r.Key))
-- 
2.43.0


From 478e404af0fd93b298e2bbe733f00d252babe83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 27/39] fix: answer gets with CAS tokens and accept them with
 cas

gets is the request for CAS tokens and this repository's text client sends cas
for an item that has one, which closed the connection. Flags of a response that
are shorter than four bytes made the connection's goroutine panic.
---
 server/server.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/server/server.go b/server/server.go
index a1a69fd..ed6604d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -164,8 +164,16 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			}
 		}
 		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
-	case "set", "add", "replace":
-		if len(s) != 5 {
+	case "set", "add", "replace", "cas":
+		opt := &SetOpt{}
+		if s[0] == "cas" && len(s) == 6 {
+			v, err := strconv.ParseUint(s[5], 10, 64)
+			if err != nil {
+				return nil, err
+			}
+			opt.Cas = true
+			opt.CasValue = v
+		} else if s[0] == "cas" || len(s) != 5 {
 			return nil, errors.New("server: invalid request")
 		}
 		f, err := strconv.ParseUint(s[2], 10, 32)
@@ -178,6 +186,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if err != nil {
 			return nil, err
 		}
+		opt.Expiration = int(expiration)
 
 		bufLen, err := strconv.ParseUint(s[4], 10, 31)
 		if err != nil {
@@ -196,7 +205,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			opcode = OpcodeReplace
 		}
 
-		return &Request{Opcode: opcode, Key: s[1], Flags: flags, Value: buf, SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
+		return &Request{Opcode: opcode, Key: s[1], Flags: flags, Value: buf, SetOpt: opt}, nil
 	case "delete", "md":
 		if len(s) != 2 {
 			return nil, errors.New("server: invalid request")
@@ -618,7 +627,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 				if r.Error != nil {
 					continue
 				}
-				if err := s.writeAsciiResponseGet(conn, r); err != nil {
+				if err := s.writeAsciiResponseGet(conn, req, r); err != nil {
 					return err
 				}
 			}
@@ -740,16 +749,21 @@ func asciiError(req *Request, err error) string {
 	return "SERVER_ERROR " + strings.NewReplacer("\r", " ", "\n", " ").Replace(err.Error()) + "\r\n"
 }
 
-func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
+func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
+	cas := ""
+	if req.Keys != nil { // gets
+		cas = " " + strconv.FormatUint(uint64(r.Cas), 10)
+	}
 	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VALUE %s %d %d\r\n",
+		fmt.Sprintf("VALUE %s %d %d%s\r\n",
 			r.Key,
 			flag,
 			len(r.Value),
+			cas,
 		),
 	)
 	if err != nil {
@@ -766,7 +780,7 @@ func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 }
 func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	if req.GetOpt.Value {
-- 
2.43.0


From 2250ed6e1b1ae23be45ea6c2f89307afc89358e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 28/39] fix: pass everything on that the router's requests and
 answers carry

gets, which is what the text client sends, was served as a get of the empty
key; flags of ms and the flags, CAS tokens and lifetimes of all answers were
dropped.
---
 proxy/replica_pool.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index d49bf31..9a145f9 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -1,6 +1,7 @@
 package proxy
 
 import (
+	"encoding/binary"
 	"errors"
 
 	"go.f110.dev/go-memcached/client"
@@ -20,6 +21,17 @@ func NewReplicaProxy(pool *cluster.ReplicaPool) *ReplicaProxy {
 func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, error) {
 	switch req.Opcode {
 	case server.OpcodeGet:
+		if req.Keys != nil {
+			items, err := p.pool.GetMulti(req.Keys...)
+			if err != nil {
+				return nil, err
+			}
+			res := make([]*server.Response, len(items))
+			for i := range items {
+				res[i] = newResponse(items[i])
+			}
+			return res, nil
+		}
 		res, err := p.pool.Get(req.Key)
 		if err != nil {
 			if _, ok := err.(*merrors.MemcachedError); ok {
@@ -27,12 +39,17 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 			}
 			return nil, err
 		}
-		return []*server.Response{{Key: res.Key, Value: res.Value}}, nil
+		return []*server.Response{newResponse(res)}, nil
 	case server.OpcodeSet:
+		flags := req.Flags
+		if req.SetOpt.Meta {
+			flags = make([]byte, 4)
+			binary.BigEndian.PutUint32(flags, uint32(req.SetOpt.Flag))
+		}
 		err := p.pool.Set(&client.Item{
 			Key:        req.Key,
 			Value:      req.Value,
-			Flags:      req.Flags,
+			Flags:      flags,
 			Expiration: req.SetOpt.Expiration,
 			Cas:        req.SetOpt.CasValue,
 		})
@@ -47,3 +64,13 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 		return nil, errors.New("proxy: unknown opcode")
 	}
 }
+
+func newResponse(item *client.Item) *server.Response {
+	return &server.Response{
+		Key:   item.Key,
+		Value: item.Value,
+		Flags: item.Flags,
+		Cas:   int64(item.Cas),
+		TTL:   int64(item.Expiration),
+	}
+}
-- 
2.43.0


From 55067a7cd291119a97e4189780091cb5140fcee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 29/39] fix: do not deadlock in GetMulti of many keys

The meta and the binary client wrote all requests before they read the first
answer. memcached stops reading requests while its answers are not read.
---
 client/server.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/client/server.go b/client/server.go
index d605219..256761e 100644
--- a/client/server.go
+++ b/client/server.go
@@ -73,6 +73,10 @@ const (
 // maxKeyLength is the longest key of memcached's protocols.
 const maxKeyLength = 250
 
+// maxPipelinedKeys is how many keys are asked for before reading the answers.
+// The server stops reading when its answers are not read.
+const maxPipelinedKeys = 64
+
 var binaryStatus = map[uint16]string{
 	1:   "key not found",
 	2:   "key exists",
@@ -896,6 +900,23 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
+	items := make([]*Item, 0)
+	for len(keys) > maxPipelinedKeys {
+		i, err := s.getMulti(keys[:maxPipelinedKeys])
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, i...)
+		keys = keys[maxPipelinedKeys:]
+	}
+	i, err := s.getMulti(keys)
+	if err != nil {
+		return nil, err
+	}
+	return append(items, i...), nil
+}
+
+func (s *ServerWithMetaProtocol) getMulti(keys []string) ([]*Item, error) {
 	items := make([]*Item, 0)
 	for _, key := range keys {
 		if _, err := fmt.Fprintf(s.conn, "mg %s v f k c t\r\n", key); err != nil {
@@ -1505,6 +1526,23 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
+	items := make([]*Item, 0, len(keys))
+	for len(keys) > maxPipelinedKeys {
+		i, err := s.getMulti(keys[:maxPipelinedKeys])
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, i...)
+		keys = keys[maxPipelinedKeys:]
+	}
+	i, err := s.getMulti(keys)
+	if err != nil {
+		return nil, err
+	}
+	return append(items, i...), nil
+}
+
+func (s *ServerWithBinaryProtocol) getMulti(keys []string) ([]*Item, error) {
 	items := make([]*Item, 0, len(keys))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	for _, key := range keys {
-- 
2.43.0


From 3428c9b9c7ee1336f2ef4240d8b00f5700539b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 30/39] fix: do not flush at once what is to be flushed later

---
 server/server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index ed6604d..6f11fb2 100644
--- a/server/server.go
+++ b/server/server.go
@@ -330,6 +330,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
+		if len(s) != 1 { // Not now, or without an answer
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: OpcodeFlush}, nil
 	case "version":
 		return &Request{Opcode: OpcodeVersion}, nil
@@ -465,7 +468,14 @@ func (c *conn) readBinaryRequest() (req *Request, err error) {
 		expiration := binary.BigEndian.Uint32(extra[:4])
 
 		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
-	case OpcodeNoop, OpcodeVersion, OpcodeFlush:
+	case OpcodeFlush:
+		for _, v := range extra {
+			if v != 0 { // Not now
+				return nil, errors.New("server: invalid request")
+			}
+		}
+		return &Request{Opcode: OpcodeFlush}, nil
+	case OpcodeNoop, OpcodeVersion:
 		return &Request{Opcode: Opcode(header[1])}, nil
 	}
 
-- 
2.43.0


From 2a32af85228fc028dc72b771b877aad9e9fb481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 31/39] fix: repeat key and opaque token in replies to mg and
 ms

---
 server/server.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/server/server.go b/server/server.go
index 6f11fb2..28c0495 100644
--- a/server/server.go
+++ b/server/server.go
@@ -54,7 +54,7 @@ var (
 )
 
 var (
-	metaProtoEnd     = []byte("EN\r\n")
+	metaProtoEnd     = []byte("EN")
 	metaProtoStored  = []byte("HD")
 	metaProtoDeleted = []byte("HD")
 	metaProtoHit     = []byte("HD")
@@ -266,7 +266,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 				return nil, errors.New("server: unsupported meta flag")
 			}
 		}
-		return &Request{Opcode: OpcodeGet, Key: s[1], GetOpt: opt}, nil
+		return &Request{Opcode: OpcodeGet, Key: s[1], GetOpt: opt, metaTokens: metaTokens(s[1], s[2:])}, nil
 	case "ms":
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
@@ -328,7 +328,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, err
 		}
 
-		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
+		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt, metaTokens: metaTokens(s[1], tokens)}, nil
 	case "flush_all":
 		if len(s) != 1 { // Not now, or without an answer
 			return nil, errors.New("server: invalid request")
@@ -341,6 +341,20 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	return nil, errors.New("server: invalid request")
 }
 
+// metaTokens are the tokens that every reply to a meta request repeats.
+func metaTokens(key string, tokens []string) string {
+	res := ""
+	for _, v := range tokens {
+		switch v[0] {
+		case 'k':
+			res += " k" + key
+		case 'O':
+			res += " " + v
+		}
+	}
+	return res
+}
+
 // readLine reads a line of bounded length, without its end.
 func (c *conn) readLine() (string, error) {
 	var line []byte
@@ -499,6 +513,8 @@ type Request struct {
 	SetOpt *SetOpt
 	DelOpt *DelOpt
 
+	// What every reply to a meta request repeats
+	metaTokens string
 	// For the response of the binary protocol
 	binaryOpcode byte
 	opaque       uint32
@@ -658,6 +674,8 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 			}
 			if !hit {
 				conn.connBuf.Write(metaProtoEnd)
+				conn.connBuf.WriteString(req.metaTokens)
+				conn.connBuf.Write(crlf)
 			}
 			if err := conn.connBuf.Flush(); err != nil {
 				return err
@@ -667,6 +685,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 		if res[0].Error == nil {
 			if req.SetOpt.Meta {
 				conn.connBuf.Write(metaProtoStored)
+				conn.connBuf.WriteString(req.metaTokens)
 				conn.connBuf.Write(crlf)
 				if err := conn.connBuf.Flush(); err != nil {
 					return err
@@ -744,11 +763,11 @@ func asciiError(req *Request, err error) string {
 	store := req.Opcode == OpcodeAdd || req.Opcode == OpcodeReplace
 	switch status := errorStatus(err); {
 	case status == statusNotFound && meta:
-		return "NF\r\n"
+		return "NF" + req.metaTokens + "\r\n"
 	case status == statusExists && meta:
-		return "EX\r\n"
+		return "EX" + req.metaTokens + "\r\n"
 	case status == statusNotStored && meta:
-		return "NS\r\n"
+		return "NS" + req.metaTokens + "\r\n"
 	case (status == statusNotFound || status == statusExists) && store, status == statusNotStored:
 		return "NOT_STORED\r\n"
 	case status == statusNotFound:
-- 
2.43.0


From d29c219915b1fab030ae6e1c5013469222d4dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 32/39] fix: connect to servers with IPv6 addresses

---
 cmd/router/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/router/main.go b/cmd/router/main.go
index ff31491..a9cc1fb 100644
--- a/cmd/router/main.go
+++ b/cmd/router/main.go
@@ -3,9 +3,11 @@ package main
 import (
 	"context"
 	"flag"
-	"fmt"
 	"io/ioutil"
 	"log"
+	"net"
+	"strconv"
+	"strings"
 
 	"gopkg.in/yaml.v3"
 
@@ -29,7 +31,9 @@ type Config struct {
 func connectServers(servers []Server) []*client.ServerWithMetaProtocol {
 	res := make([]*client.ServerWithMetaProtocol, len(servers))
 	for i := range servers {
-		s, err := client.NewServerWithMetaProtocol(context.Background(), servers[i].Name, "tcp", fmt.Sprintf("%s:%d", servers[i].Host, servers[i].Port))
+		// An IPv6 address may have been written in brackets.
+		host := strings.TrimSuffix(strings.TrimPrefix(servers[i].Host, "["), "]")
+		s, err := client.NewServerWithMetaProtocol(context.Background(), servers[i].Name, "tcp", net.JoinHostPort(host, strconv.Itoa(servers[i].Port)))
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0


From cdc6c7fc2008e3b270ec616fa23a03c62f6210b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 33/39] fix: client: read error lines longer than the buffer
 whole

The rest of such a line was taken for the reply to the next request.
---
 client/server.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/client/server.go b/client/server.go
index 256761e..dfcba3c 100644
--- a/client/server.go
+++ b/client/server.go
@@ -133,7 +133,7 @@ type ServerWithTextProtocol struct {
 	Type    ServerOperationType
 	Timeout time.Duration
 
-	conn    *bufio.ReadWriter
+	conn    *connBuffer
 	closeCh chan struct{}
 	raw     net.Conn
 	closeMu sync.Mutex // for raw and closeCh
@@ -241,7 +241,7 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	if err := s.conn.Flush(); err != nil {
 		return nil, err
 	}
-	items, err := s.parseGetResponse(s.conn.Reader)
+	items, err := s.parseGetResponse(s.conn)
 	if err != nil {
 		return nil, err
 	}
@@ -282,7 +282,7 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	if err := s.conn.Flush(); err != nil {
 		return nil, err
 	}
-	i, err := s.parseGetResponse(s.conn.Reader)
+	i, err := s.parseGetResponse(s.conn)
 	if err != nil {
 		return nil, err
 	}
@@ -294,7 +294,7 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	return items, nil
 }
 
-func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, error) {
+func (s *ServerWithTextProtocol) parseGetResponse(r *connBuffer) ([]*Item, error) {
 	res := make([]*Item, 0)
 	for {
 		b, err := r.ReadSlice('\n')
@@ -349,9 +349,25 @@ type brokenConn struct {
 	err error
 }
 
-func newConnBuffer(conn net.Conn) *bufio.ReadWriter {
+type connBuffer struct {
+	*bufio.ReadWriter
+}
+
+func newConnBuffer(conn net.Conn) *connBuffer {
 	c := &brokenConn{Conn: conn}
-	return bufio.NewReadWriter(bufio.NewReader(c), bufio.NewWriter(c))
+	return &connBuffer{ReadWriter: bufio.NewReadWriter(bufio.NewReader(c), bufio.NewWriter(c))}
+}
+
+// ReadSlice also reads what does not fit into the buffer, such as the line of
+// a long error message, the rest of which would be taken for the next reply.
+func (c *connBuffer) ReadSlice(delim byte) ([]byte, error) {
+	b, err := c.ReadWriter.ReadSlice(delim)
+	if err != bufio.ErrBufferFull {
+		return b, err
+	}
+	line := append([]byte(nil), b...)
+	b, err = c.ReadBytes(delim)
+	return append(line, b...), err
 }
 
 func (c *brokenConn) Read(b []byte) (int, error) {
@@ -786,7 +802,7 @@ type ServerWithMetaProtocol struct {
 	Timeout time.Duration
 
 	closeCh chan struct{}
-	conn    *bufio.ReadWriter
+	conn    *connBuffer
 	raw     net.Conn
 	closeMu sync.Mutex // for raw and closeCh
 	mu      sync.Mutex
@@ -962,7 +978,7 @@ func (s *ServerWithMetaProtocol) getMulti(keys []string) ([]*Item, error) {
 	return items, nil
 }
 
-func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item, error) {
+func (s *ServerWithMetaProtocol) parseGetResponse(conn *connBuffer) (*Item, error) {
 	b, err := conn.ReadSlice('\n')
 	if err != nil {
 		return nil, err
@@ -1369,7 +1385,7 @@ type ServerWithBinaryProtocol struct {
 
 	closeCh chan struct{}
 	mu      sync.Mutex
-	conn    *bufio.ReadWriter
+	conn    *connBuffer
 	raw     net.Conn
 	closeMu sync.Mutex // for raw and closeCh
 
-- 
2.43.0


From fc5dc2e90474ed3f38de4c9589629623e37eb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:10 +0000
Subject: [PATCH 34/39] fix: router: a compare and swap with token 0 stored the
 item unconditionally

---
 proxy/replica_pool.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index 9a145f9..50479c4 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -41,6 +41,17 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 		}
 		return []*server.Response{newResponse(res)}, nil
 	case server.OpcodeSet:
+		if req.SetOpt.Cas && req.SetOpt.CasValue == 0 {
+			// No item has this token, and for the pool it would be no condition.
+			_, err := p.pool.Get(req.Key)
+			if err == nil {
+				err = merrors.ItemExists
+			}
+			if _, ok := err.(*merrors.MemcachedError); ok {
+				return []*server.Response{{Error: err}}, nil
+			}
+			return nil, err
+		}
 		flags := req.Flags
 		if req.SetOpt.Meta {
 			flags = make([]byte, 4)
-- 
2.43.0


From a55271cbc09906a0b060da438f2d50ea0e59e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:51 +0000
Subject: [PATCH 35/39] fix: server: a meta set that gives the item a CAS token
 was taken for one that does not

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 28c0495..1bc7f71 100644
--- a/server/server.go
+++ b/server/server.go
@@ -280,7 +280,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s[2]) > 0 {
 			for _, f := range tokens {
 				switch f[0] {
-				case 'M', 'b': // Not a set, or not this key
+				case 'M', 'b', 'E': // Not a set, not this key, or a token of its own
 					return nil, errors.New("server: unsupported meta flag")
 				case 'C':
 					opt.Cas = true
-- 
2.43.0


From 5a7da631f70dbbe42a8cd4f1fc66085dd5c98d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 36/39] fix: client: Reconnect, and every operation meanwhile,
 waited for an unreachable host whatever the timeout

---
 client/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index dfcba3c..e5f2edf 100644
--- a/client/server.go
+++ b/client/server.go
@@ -200,7 +200,7 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 		return errors.New("memcached: closed")
 	}
 
-	d := &net.Dialer{}
+	d := &net.Dialer{Timeout: s.Timeout}
 	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
@@ -855,7 +855,7 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 		return errors.New("memcached: closed")
 	}
 
-	d := &net.Dialer{}
+	d := &net.Dialer{Timeout: s.Timeout}
 	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
@@ -1446,7 +1446,7 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 		return errors.New("memcached: closed")
 	}
 
-	d := &net.Dialer{}
+	d := &net.Dialer{Timeout: s.Timeout}
 	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
-- 
2.43.0


From 6601fb08ccedb2d6c4912657a95bfd3fc8b1662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:44 +0000
Subject: [PATCH 37/39] fix: server: running out of files ended the server

---
 server/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server/server.go b/server/server.go
index 1bc7f71..c110867 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"time"
 
 	merrors "go.f110.dev/go-memcached/errors"
 )
@@ -74,6 +75,8 @@ const (
 	maxLineLength = 1 << 20
 )
 
+const acceptRetryInterval = 10 * time.Millisecond
+
 type Protocol string
 
 type conn struct {
@@ -587,6 +590,11 @@ func (s *Server) Serve(l net.Listener) error {
 	for {
 		conn, err := l.Accept()
 		if err != nil {
+			// Too many open files, for example: that passes.
+			if e, ok := err.(net.Error); ok && e.Temporary() && !e.Timeout() {
+				time.Sleep(acceptRetryInterval)
+				continue
+			}
 			return err
 		}
 
-- 
2.43.0


From 0f2c5fde56f5c6934b197d4f92d23ef4e9bf562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:45 +0000
Subject: [PATCH 38/39] fix: router: a backend whose connection was lost was
 never used again

---
 cmd/router/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/router/main.go b/cmd/router/main.go
index a9cc1fb..d5263e8 100644
--- a/cmd/router/main.go
+++ b/cmd/router/main.go
@@ -33,7 +33,14 @@ func connectServers(servers []Server) []*client.ServerWithMetaProtocol {
 	for i := range servers {
 		// An IPv6 address may have been written in brackets.
 		host := strings.TrimSuffix(strings.TrimPrefix(servers[i].Host, "["), "]")
-		s, err := client.NewServerWithMetaProtocol(context.Background(), servers[i].Name, "tcp", net.JoinHostPort(host, strconv.Itoa(servers[i].Port)))
+		s, err := client.NewServerWithMetaProtocol(
+			context.Background(),
+			servers[i].Name,
+			"tcp",
+			net.JoinHostPort(host, strconv.Itoa(servers[i].Port)),
+			client.EnableHeartbeat,
+			client.EnableAutoReconnect,
+		)
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0


From 83acfa1241d80faf5690579e6c02e564d2d01513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:55 +0000
Subject: [PATCH 39/39] fix: client: an operation without a timeout failed on
 the deadline of an earlier one

---
 client/server.go | 160 ++++++++++++-----------------------------------
 1 file changed, 40 insertions(+), 120 deletions(-)

diff --git a/client/server.go b/client/server.go
index e5f2edf..01e0f25 100644
--- a/client/server.go
+++ b/client/server.go
@@ -230,10 +230,7 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 		return nil, errors.New("memcached: closed")
 	}
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := fmt.Fprintf(s.conn, "gets %s\r\n", key); err != nil {
 		return nil, err
@@ -270,10 +267,7 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, errors.New("memcached: closed")
 	}
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	items := make([]*Item, 0, len(keys))
 	if _, err := fmt.Fprintf(s.conn, "gets %s\r\n", strings.Join(keys, " ")); err != nil {
@@ -392,6 +386,16 @@ func (c *brokenConn) Write(b []byte) (int, error) {
 	return n, err
 }
 
+// setDeadline gives the operation that begins its timeout. Without one it has
+// to get rid of the deadline of an operation before.
+func setDeadline(conn net.Conn, timeout time.Duration) {
+	if timeout == 0 {
+		conn.SetDeadline(time.Time{})
+		return
+	}
+	conn.SetDeadline(time.Now().Add(timeout))
+}
+
 // checkKeyLength refuses keys which memcached refuses for their length.
 func checkKeyLength(key string) error {
 	if len(key) == 0 || len(key) > maxKeyLength {
@@ -466,10 +470,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 		return errors.New("memcached: closed")
 	}
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := fmt.Fprintf(s.conn, "delete %s\r\n", key); err != nil {
 		return err
@@ -511,10 +512,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 		return 0, errors.New("memcached: closed")
 	}
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := fmt.Fprintf(s.conn, "%s %s %d\r\n", op, key, delta); err != nil {
 		return 0, err
@@ -554,10 +552,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 		return errors.New("memcached: closed")
 	}
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := fmt.Fprintf(s.conn, "touch %s %d\r\n", key, expiration); err != nil {
 		return err
@@ -595,10 +590,7 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 		return errors.New("memcached: closed")
 	}
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	flags := uint32(0)
 	if len(item.Flags) == 4 {
@@ -652,10 +644,7 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 		return errors.New("memcached: closed")
 	}
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	flags := uint32(0)
 	if len(item.Flags) == 4 {
@@ -699,10 +688,7 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 		return errors.New("memcached: closed")
 	}
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	flags := uint32(0)
 	if len(item.Flags) == 4 {
@@ -739,10 +725,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 		return errors.New("memcached: closed")
 	}
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := fmt.Fprint(s.conn, "flush_all\r\n"); err != nil {
 		return err
@@ -771,10 +754,7 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", errors.New("memcached: closed")
 	}
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := s.conn.WriteString("version\r\n"); err != nil {
 		return "", err
@@ -881,10 +861,7 @@ func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := fmt.Fprintf(s.conn, "mg %s v f c t\r\n", key); err != nil {
 		return nil, err
@@ -911,10 +888,7 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	items := make([]*Item, 0)
 	for len(keys) > maxPipelinedKeys {
@@ -1053,10 +1027,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	format := "%s %d T%d" // ms <key> <datalen> TTL
 	values := []interface{}{item.Key, len(item.Value), item.Expiration}
@@ -1110,10 +1081,7 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	// FIXME: should use new text protocol
 	flags := uint32(0)
@@ -1154,10 +1122,7 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	// FIXME: should use new text protocol
 	flags := uint32(0)
@@ -1195,10 +1160,7 @@ func (s *ServerWithMetaProtocol) Delete(key string) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := fmt.Fprintf(s.conn, "md %s\r\n", key); err != nil {
 		return err
@@ -1243,10 +1205,7 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := fmt.Fprintf(s.conn, "%s %s %d\r\n", op, key, delta); err != nil {
 		return 0, err
@@ -1282,10 +1241,7 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := fmt.Fprintf(s.conn, "mg %s T%d\r\n", key, expiration); err != nil {
 		return err
@@ -1313,10 +1269,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := fmt.Fprint(s.conn, "flush_all\r\n"); err != nil {
 		return err
@@ -1341,10 +1294,7 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout > 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	if _, err := s.conn.WriteString("version\r\n"); err != nil {
 		return "", err
@@ -1472,10 +1422,7 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
@@ -1537,10 +1484,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	items := make([]*Item, 0, len(keys))
 	for len(keys) > maxPipelinedKeys {
@@ -1636,10 +1580,7 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	header := s.getReqHeader()
 	defer s.putReqHeader(header)
@@ -1699,10 +1640,7 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	header := s.getReqHeader()
 	defer s.putReqHeader(header)
@@ -1764,10 +1702,7 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	header := s.getReqHeader()
 	defer s.putReqHeader(header)
@@ -1824,10 +1759,7 @@ func (s *ServerWithBinaryProtocol) Delete(key string) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
@@ -1892,10 +1824,7 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	extra := make([]byte, 20)
 	binary.BigEndian.PutUint64(extra[:8], uint64(delta))
@@ -1972,10 +1901,7 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	extra := make([]byte, 4)
 	binary.BigEndian.PutUint32(extra, binaryExpiration(expiration))
@@ -2025,10 +1951,7 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	header := s.getReqHeader()
 	defer s.putReqHeader(header)
@@ -2069,10 +1992,7 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.Timeout != 0 {
-		s.raw.SetWriteDeadline(time.Now().Add(s.Timeout))
-		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
-	}
+	setDeadline(s.raw, s.Timeout)
 
 	header := s.getReqHeader()
 	defer s.putReqHeader(header)
-- 
2.43.0

