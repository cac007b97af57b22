From c70bad6c4a551b0afa10bf5287ffd360a2b961a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 01/71] fix: xbase: reject negative and overflowing buffer read
 lengths

---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 806d153..021b3da 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -30,7 +30,7 @@ func NewBufferReader(data []byte) *Buffer {
 }
 
 func (b *Buffer) check(l int) error {
-	if (b.seek + l) > b.length {
+	if l < 0 || l > (b.length-b.seek) {
 		return fmt.Errorf("error.seek[%v].required[%v].length[%v]", b.seek, l, b.length)
 	}
 	return nil
-- 
2.43.0


From 36daf406c6ecd04f7fcbeb46551ad51d213b4bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 02/71] fix: xbase: WitnessDecode rejects missing or invalid
 version and bad program length

---
 xbase/witness.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xbase/witness.go b/xbase/witness.go
index a868b18..2066db5 100644
--- a/xbase/witness.go
+++ b/xbase/witness.go
@@ -15,10 +15,21 @@ func WitnessDecode(addr string) (string, byte, []byte, error) {
 	if err != nil {
 		return "", 0, nil, err
 	}
+	// BIP173: a version between 0 and 16 must be there.
+	if len(data) < 1 || data[0] > 16 {
+		return "", 0, nil, fmt.Errorf("invalid witness version")
+	}
 	res, err := convertBits(data[1:], 5, 8, false)
 	if err != nil {
 		return "", 0, nil, err
 	}
+	// BIP173: the program has 2 to 40 bytes, for version 0 exactly 20 or 32.
+	if len(res) < 2 || len(res) > 40 {
+		return "", 0, nil, fmt.Errorf("invalid witness program length %d", len(res))
+	}
+	if data[0] == 0 && len(res) != 20 && len(res) != 32 {
+		return "", 0, nil, fmt.Errorf("invalid witness v0 program length %d", len(res))
+	}
 	return hrp, data[0], res, nil
 }
 
-- 
2.43.0


From e527b90a3d40411d3f58d64ea52d3b28f1b20301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 03/71] fix: xbase: Bech32Encode must not write into the
 caller's spare capacity

---
 xbase/bech32.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xbase/bech32.go b/xbase/bech32.go
index 5cb92b2..757d4f0 100644
--- a/xbase/bech32.go
+++ b/xbase/bech32.go
@@ -79,7 +79,9 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := make([]byte, 0, len(data)+len(checksum))
+	combined = append(combined, data...)
+	combined = append(combined, checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
-- 
2.43.0


From ab384bf279ece06b62ed221fe13df95271d13db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 04/71] fix: xprotocol: received ping and pong frames yield
 their message types

---
 xprotocol/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xprotocol/message.go b/xprotocol/message.go
index d475a4e..fcb23a7 100644
--- a/xprotocol/message.go
+++ b/xprotocol/message.go
@@ -19,6 +19,10 @@ func makeEmptyMessage(command string) Message {
 		return &MsgVersion{}
 	case CommandVersionAck:
 		return &MsgVerAck{}
+	case CommandPing:
+		return &MsgPing{}
+	case CommandPong:
+		return &MsgPong{}
 	case CommandInventory:
 		return &MsgInv{}
 	case CommandGetData:
-- 
2.43.0


From 216b9d65f6bf39bb300f50edd24109de679e3d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 05/71] fix: xprotocol: list limits count every added element

---
 xprotocol/msgheaders.go | 2 +-
 xprotocol/msginv.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 66baf0e..3e709bb 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -27,7 +27,7 @@ func NewMsgHeaders() *MsgHeaders {
 
 // AddBlockHeader -- adds a new block header to the message.
 func (m *MsgHeaders) AddBlockHeader(headers ...*BlockHeader) error {
-	if len(m.Headers)+1 > MaxBlockHeadersPerMsg {
+	if len(m.Headers)+len(headers) > MaxBlockHeadersPerMsg {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
 	m.Headers = append(m.Headers, headers...)
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index f54c3fa..6ba6787 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -23,7 +23,7 @@ func NewMsgInv() *MsgInv {
 
 // AddInvVect -- adds an inventory vector to the message.
 func (m *MsgInv) AddInvVect(iv ...*InvVect) error {
-	if len(m.Invs)+1 > MaxInvPerMsg {
+	if len(m.Invs)+len(iv) > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
 	m.Invs = append(m.Invs, iv...)
-- 
2.43.0


From 2b913360bc5b209b0cb0b2bbb2e751664c359461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 06/71] fix: xprotocol: MsgHeaders.Decode enforces the header
 count limit

---
 xprotocol/msgheaders.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 3e709bb..1234c2c 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -59,6 +59,9 @@ func (m *MsgHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if count > MaxBlockHeadersPerMsg {
+		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
+	}
 
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
-- 
2.43.0


From c01c410e44b92ce9d25725099441f35f36b393ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 07/71] fix: xprotocol: MsgGetHeaders.Decode reads the stop
 hash and refuses huge counts

---
 xprotocol/msggetheaders.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 78e3125..d0058ee 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -61,7 +61,7 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
-	for i := 0; i < int(count); i++ {
+	for i := uint64(0); i < count; i++ {
 		var hash []byte
 		if hash, err = buffer.ReadBytes(32); err != nil {
 			return err
@@ -70,6 +70,11 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 			return err
 		}
 	}
+	stop, err := buffer.ReadBytes(len(m.blockStopHash))
+	if err != nil {
+		return err
+	}
+	copy(m.blockStopHash[:], stop)
 	return nil
 }
 
-- 
2.43.0


From be88d333f13f3cf81bbe4fe2aaffee374c125bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 08/71] fix: xprotocol: MsgGetHeaders.Encode leaves the message
 unchanged

---
 xprotocol/msggetheaders.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index d0058ee..f4156a5 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -30,19 +30,22 @@ func (m *MsgGetHeaders) AddBlockLocatorHash(hash []byte) error {
 	return nil
 }
 
-// Encode -- encoding MsgGetHeaders.
-func (m *MsgGetHeaders) Encode() []byte {
+// locators -- the locators to send: a zero hash stands for an empty list.
+func (m *MsgGetHeaders) locators() [][]byte {
 	if len(m.blockLocatorHashes) == 0 {
-		var zero [32]byte
-		if err := m.AddBlockLocatorHash(zero[:]); err != nil {
-			return nil
-		}
+		return [][]byte{make([]byte, 32)}
 	}
+	return m.blockLocatorHashes
+}
+
+// Encode -- encoding MsgGetHeaders.
+func (m *MsgGetHeaders) Encode() []byte {
+	locators := m.locators()
 
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(m.protocolVersion)
-	buffer.WriteVarInt(uint64(len(m.blockLocatorHashes)))
-	for _, locator := range m.blockLocatorHashes {
+	buffer.WriteVarInt(uint64(len(locators)))
+	for _, locator := range locators {
 		buffer.WriteBytes(locator[:])
 	}
 	buffer.WriteBytes(m.blockStopHash[:])
@@ -80,9 +83,10 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgGetHeaders) Size() int {
+	locators := m.locators()
 	size := 4
-	size += xbase.VarIntSerializeSize(uint64(len(m.blockLocatorHashes)))
-	for _, hdr := range m.blockLocatorHashes {
+	size += xbase.VarIntSerializeSize(uint64(len(locators)))
+	for _, hdr := range locators {
 		size += len(hdr)
 	}
 	size += len(m.blockStopHash)
-- 
2.43.0


From 8b664929d20e5f76a1940944bbfa1e6130ff3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 09/71] fix: xprotocol: reject, verack and unhandled messages
 report their encoded size

---
 xprotocol/msgreject.go   | 7 ++++++-
 xprotocol/msgunhandle.go | 2 +-
 xprotocol/msgverack.go   | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 9a50602..40d07cc 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -77,7 +77,12 @@ func (m *MsgReject) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgReject) Size() int {
-	return len(m.Cmd) + 1 + len(m.Reason) + len(m.Hash)
+	size := xbase.VarIntSerializeSize(uint64(len(m.Cmd))) + len(m.Cmd) + 1 +
+		xbase.VarIntSerializeSize(uint64(len(m.Reason))) + len(m.Reason)
+	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
+		size += len(m.Hash)
+	}
+	return size
 }
 
 // Command -- returns the protocal command string of this message.
diff --git a/xprotocol/msgunhandle.go b/xprotocol/msgunhandle.go
index d8c31b1..19b7728 100644
--- a/xprotocol/msgunhandle.go
+++ b/xprotocol/msgunhandle.go
@@ -29,7 +29,7 @@ func (m *MsgUnhandle) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgUnhandle) Size() int {
-	return len(m.command)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
diff --git a/xprotocol/msgverack.go b/xprotocol/msgverack.go
index ceddcf9..d9fb118 100644
--- a/xprotocol/msgverack.go
+++ b/xprotocol/msgverack.go
@@ -25,7 +25,7 @@ func (m *MsgVerAck) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgVerAck) Size() int {
-	return len(CommandVersionAck)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
-- 
2.43.0


From e36c2aa04b3ecb78b38212542bdf1c711dfdcc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 10/71] fix: xprotocol: version message carries binary
 addresses and network-order ports

---
 xbase/buffer.go         | 19 +++++++++++++++++++
 xprotocol/msgversion.go | 13 +++++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 021b3da..ff34103 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -71,6 +71,25 @@ func (b *Buffer) ReadU16() (uint32, error) {
 	return v, nil
 }
 
+// WriteU16BE -- write uint16 with big-endian (network byteorder) to the buffer.
+func (b *Buffer) WriteU16BE(v uint32) {
+	b.data = append(b.data, byte(v>>8))
+	b.data = append(b.data, byte(v))
+	b.length += 2
+}
+
+// ReadU16BE -- read uint16 from the buffer which with the big-endian (network) byteorder.
+func (b *Buffer) ReadU16BE() (uint32, error) {
+	if err := b.check(2); err != nil {
+		return 0, err
+	}
+
+	v := uint32(b.data[b.seek])<<8 |
+		uint32(b.data[b.seek+1])
+	b.seek += 2
+	return v, nil
+}
+
 // WriteU32 -- write uint32 with little-endian to the buffer.
 func (b *Buffer) WriteU32(v uint32) {
 	b.data = append(b.data, byte(v))
diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 7dc8c0e..05fe388 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -6,6 +6,7 @@
 package xprotocol
 
 import (
+	"net"
 	"time"
 
 	"github.com/keyfuse/tokucore/network"
@@ -68,9 +69,9 @@ func NewMsgVersion(network *network.Network) *MsgVersion {
 	return &MsgVersion{
 		Version:    network.ProtocolVersion,
 		Timestamp:  uint64(time.Now().Unix()),
-		AddressYou: []byte(ip),
+		AddressYou: net.ParseIP(ip).To16(),
 		PortYou:    network.Port,
-		AddressMe:  []byte(ip),
+		AddressMe:  net.ParseIP(ip).To16(),
 		PortMe:     network.Port,
 		UserAgent:  network.UserAgent,
 		LastBlock:  1,
@@ -85,10 +86,10 @@ func (m *MsgVersion) Encode() []byte {
 	buffer.WriteU64(m.Timestamp)
 	buffer.WriteU64(m.ServicesYou)
 	buffer.WriteBytes(m.AddressYou)
-	buffer.WriteU16(m.PortYou)
+	buffer.WriteU16BE(m.PortYou)
 	buffer.WriteU64(m.ServicesMe)
 	buffer.WriteBytes(m.AddressMe)
-	buffer.WriteU16(m.PortMe)
+	buffer.WriteU16BE(m.PortMe)
 	buffer.WriteU64(m.Nonce)
 	buffer.WriteVarString(m.UserAgent)
 	buffer.WriteU32((m.LastBlock))
@@ -116,7 +117,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressYou, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortYou, err = buffer.ReadU16(); err != nil {
+	if m.PortYou, err = buffer.ReadU16BE(); err != nil {
 		return err
 	}
 	if m.ServicesMe, err = buffer.ReadU64(); err != nil {
@@ -125,7 +126,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressMe, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortMe, err = buffer.ReadU16(); err != nil {
+	if m.PortMe, err = buffer.ReadU16BE(); err != nil {
 		return err
 	}
 	if m.Nonce, err = buffer.ReadU64(); err != nil {
-- 
2.43.0


From 54db0e38212ab2fa6047fedc392ccd4d6d744df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 11/71] fix: xprotocol: bound the declared payload size before
 reserving memory

---
 xprotocol/stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index e5b1ca1..54152ec 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -38,6 +38,9 @@ const (
 	bufferSize   = 32 * 1024
 	readTimeout  = 30 * time.Second
 	writeTimeout = 20 * time.Second
+
+	// maxPayload -- the maximum payload of a message, as the protocol limits it.
+	maxPayload = 32 * 1024 * 1024
 )
 
 // Stream --
@@ -83,6 +86,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, check); err != nil {
 		return nil, err
 	}
+	if size > maxPayload {
+		return nil, fmt.Errorf("stream.read.payload.too.large[%v]", size)
+	}
 	data := make([]byte, size)
 	if _, err := io.ReadFull(s.reader, data); err != nil {
 		return nil, err
-- 
2.43.0


From 944d047743896b486f1da6bf8eaa5fc42d48a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 12/71] fix: xprotocol: refuse frames of another network

---
 xprotocol/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 54152ec..ad98b82 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -74,6 +74,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, magic); err != nil {
 		return nil, err
 	}
+	if !bytes.Equal(magic, s.magic) {
+		return nil, fmt.Errorf("stream.read.magic.mismatch")
+	}
 	command := make([]byte, 12)
 	if _, err := io.ReadFull(s.reader, command); err != nil {
 		return nil, err
-- 
2.43.0


From cf7e5b08aeb4cc381a1647c19473d8a8ee764b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 13/71] fix: xprotocol: a pending receive no longer blocks
 senders

---
 xprotocol/stream.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index ad98b82..238196a 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -47,7 +47,8 @@ const (
 type Stream struct {
 	magic  []byte
 	conn   net.Conn
-	mutex  sync.Mutex
+	rmutex sync.Mutex // guards reader
+	wmutex sync.Mutex // guards writer
 	reader *bufio.Reader
 	writer *bufio.Writer
 }
@@ -64,8 +65,8 @@ func NewStream(conn net.Conn, magic []byte) *Stream {
 
 // ReadMessage -- read a message from the network.
 func (s *Stream) ReadMessage() (Message, error) {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.rmutex.Lock()
+	defer s.rmutex.Unlock()
 	if err := s.conn.SetReadDeadline(time.Now().Add(readTimeout)); err != nil {
 		return nil, err
 	}
@@ -110,8 +111,8 @@ func (s *Stream) ReadMessage() (Message, error) {
 
 // WriteMessage -- write the message to the network.
 func (s *Stream) WriteMessage(msg Message) error {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.wmutex.Lock()
+	defer s.wmutex.Unlock()
 	if err := s.conn.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
 		return err
 	}
-- 
2.43.0


From 8bf46c644a1600cc1fc1ebea38d1a310e93e7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 14/71] fix: xprotocol: close the socket when the receive loop
 ends

---
 xprotocol/connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xprotocol/connection.go b/xprotocol/connection.go
index 209779e..cd1dcdd 100644
--- a/xprotocol/connection.go
+++ b/xprotocol/connection.go
@@ -47,6 +47,7 @@ func (c *Connection) ReadLoop() {
 		}
 		c.onReceive(c, msg)
 	}
+	c.Close()
 	c.onDisconnect(c)
 }
 
-- 
2.43.0


From af493f13c27f596b2df0fcdde4b2569600acdfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 15/71] fix: xcore: transaction parsing reserves memory for the
 elements present, not the declared count

---
 xcore/transaction.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index b2c8b11..4a995b4 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -523,8 +523,8 @@ func (tx *Transaction) Deserialize(data []byte) error {
 		return err
 	}
 	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
+		tx.inputs = nil
+		for i := uint64(0); i < ins; i++ {
 			txIn := &TxIn{}
 			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
 				return err
@@ -538,7 +538,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
 				return err
 			}
-			tx.inputs[i] = txIn
+			tx.inputs = append(tx.inputs, txIn)
 		}
 	}
 
@@ -548,8 +548,8 @@ func (tx *Transaction) Deserialize(data []byte) error {
 		return err
 	}
 	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
+		tx.outputs = nil
+		for i := uint64(0); i < outs; i++ {
 			txOut := &TxOut{}
 			if txOut.Value, err = buffer.ReadU64(); err != nil {
 				return err
@@ -557,7 +557,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
 				return err
 			}
-			tx.outputs[i] = txOut
+			tx.outputs = append(tx.outputs, txOut)
 		}
 	}
 
@@ -570,11 +570,13 @@ func (tx *Transaction) Deserialize(data []byte) error {
 				return err
 			}
 
-			in.Witness = make([][]byte, witCount)
+			in.Witness = nil
 			for j := uint64(0); j < witCount; j++ {
-				if in.Witness[j], err = buffer.ReadVarBytes(); err != nil {
+				wit, err := buffer.ReadVarBytes()
+				if err != nil {
 					return err
 				}
+				in.Witness = append(in.Witness, wit)
 			}
 		}
 	}
@@ -635,8 +637,8 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 		return err
 	}
 	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
+		tx.inputs = nil
+		for i := uint64(0); i < ins; i++ {
 			txIn := &TxIn{}
 			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
 				return err
@@ -650,7 +652,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
 				return err
 			}
-			tx.inputs[i] = txIn
+			tx.inputs = append(tx.inputs, txIn)
 		}
 	}
 
@@ -660,8 +662,8 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 		return err
 	}
 	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
+		tx.outputs = nil
+		for i := uint64(0); i < outs; i++ {
 			txOut := &TxOut{}
 			if txOut.Value, err = buffer.ReadU64(); err != nil {
 				return err
@@ -669,7 +671,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
 				return err
 			}
-			tx.outputs[i] = txOut
+			tx.outputs = append(tx.outputs, txOut)
 		}
 	}
 
-- 
2.43.0


From 0df165bad8e917b2bf9b973bec9540663bf81b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 16/71] fix: xcore: EmbedIdxSignature reports unlocking script
 failures

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 4a995b4..94b74a5 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -259,7 +259,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 	}
 	// Raw unlocking.
 	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-		return nil
+		return err
 	}
 	// Witness unlocking.
 	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-- 
2.43.0


From 6bc860d78e877ff21c2e0d52b489371b0e81b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 17/71] fix: xcore: EmbedIdxEcdsaSignature must not write into
 the caller's signature

---
 xcore/transaction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 94b74a5..9c18870 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -272,7 +272,9 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, ecdsaSig []byte, hashType SigHashType) error {
 	var signs []PubKeySign
 
-	finalsig := append(ecdsaSig, byte(hashType))
+	finalsig := make([]byte, 0, len(ecdsaSig)+1)
+	finalsig = append(finalsig, ecdsaSig...)
+	finalsig = append(finalsig, byte(hashType))
 	signs = append(signs, PubKeySign{PubKey: pubkey.SerializeCompressed(), Signature: finalsig})
 	return tx.EmbedIdxSignature(idx, signs)
 }
-- 
2.43.0


From 9c36b9a8ffbfe5f8c93eafe0fd599225836c2fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 18/71] fix: xcore: input index out of range is an error, not a
 panic

---
 xcore/transaction.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 9c18870..d5891bf 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -140,6 +140,9 @@ func (tx *Transaction) SetLockTime(time uint32) {
 // SetTxIn -- set the txin tuples.
 // Used for deserialize the transaction and verify.
 func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScript []byte) error {
+	if inputs := len(tx.inputs); idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
 	txIn := tx.inputs[idx]
 	scriptInstance, err := ParseLockingScript(script)
 	if err != nil {
@@ -207,6 +210,9 @@ func (tx *Transaction) WitnessID() string {
 
 // SignIndex -- sign specified transaction input with pubkey format.
 func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType, keys ...*xcrypto.PrvKey) error {
+	if inputs := len(tx.inputs); idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
 	txIn := tx.inputs[idx]
 	signs := make([]PubKeySign, 0)
 
@@ -246,6 +252,9 @@ func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType,
 
 // EmbedIdxSignature -- build the unlocking with signs for the idx.
 func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
+	if inputs := len(tx.inputs); idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
 	txIn := tx.inputs[idx]
 
 	// Sanity check.
@@ -389,7 +398,7 @@ func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []b
 func (tx *Transaction) RawSignature(idx int, hashType SigHashType, prv *xcrypto.PrvKey) ([]byte, error) {
 	// Sanity Check
 	inputs := len(tx.inputs)
-	if idx >= inputs {
+	if idx < 0 || idx >= inputs {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
 	}
 
@@ -409,7 +418,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 
 	// Sanity Check
 	inputs := len(tx.inputs)
-	if idx >= inputs {
+	if idx < 0 || idx >= inputs {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
 	}
 
-- 
2.43.0


From f2ae5635c3a7669ed41bcda4750bc141e0471672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 19/71] fix: xcore: printing an unsigned witness transaction
 does not panic

---
 xcore/transaction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index d5891bf..747e2cb 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -847,7 +847,9 @@ func (tx *Transaction) ToString() string {
 		lines = append(lines, fmt.Sprintf("      \"script\":\t\"%s\",", xvm.DisasmString(in.RawUnlockingScript)))
 		lines = append(lines, fmt.Sprintf("      \"sighash\":\t\"%x\",", in.SignatureHash))
 		if in.HasWitness() {
-			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", in.Witness[0]))
+			if len(in.Witness) > 0 {
+				lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", in.Witness[0]))
+			}
 			lines = append(lines, fmt.Sprintf("      \"scriptcode\":\t\"%x\"", in.WitnessScriptCode))
 		}
 		if i == (len(tx.inputs) - 1) {
-- 
2.43.0


From 0e373ceccb49af3f5c05dd61726fa92259ababd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 20/71] fix: xcore: a transaction has witness data when an
 input carries some, also after parsing

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 747e2cb..ae59243 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -445,7 +445,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 // HasWitness -- returns whether the inputs contain witness datas.
 func (tx *Transaction) HasWitness() bool {
 	for _, in := range tx.inputs {
-		if in.HasWitness() {
+		if len(in.Witness) > 0 {
 			return true
 		}
 	}
-- 
2.43.0


From b49967cb2c5058feecd47c7c50502a84283e582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 21/71] fix: xcore: base, witness and virtual sizes are those
 of the serialisations

---
 xcore/transaction.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index ae59243..67909d5 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -759,8 +759,12 @@ func (tx *Transaction) BaseSize() int {
 	for _, in := range tx.inputs {
 		size += len(in.Hash)
 		size += 4
-		size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
-		size += len(in.RawUnlockingScript)
+		if in.HasWitness() {
+			size += xbase.VarIntSerializeSize(0)
+		} else {
+			size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
+			size += len(in.RawUnlockingScript)
+		}
 		size += 4
 	}
 
@@ -782,6 +786,8 @@ func (tx *Transaction) WitnessSize() int {
 	size := 0
 
 	if tx.HasWitness() {
+		// Witness marker and flag.
+		size += 2
 		for _, in := range tx.inputs {
 			wits := in.Witness
 			size += xbase.VarIntSerializeSize(uint64(len(wits)))
@@ -803,7 +809,7 @@ func (tx *Transaction) Weight() int {
 
 // Vsize -- defined as Transaction weight / 4 (rounded up to the next integer).
 func (tx *Transaction) Vsize() int {
-	return tx.Weight() / witnessScaleFactor
+	return (tx.Weight() + witnessScaleFactor - 1) / witnessScaleFactor
 }
 
 // Size -- size in bytes serialized as described in BIP144, including base data and witness data.
-- 
2.43.0


From 6625ebb3900009eee651b29353d33de39b204d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 22/71] fix: xcore: the legacy signature hash commits to the
 transaction for every hash type

---
 xcore/transaction.go | 60 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 67909d5..297a69b 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -291,28 +291,60 @@ func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, e
 // RawSignatureHash -- returns transaction hash used to get signed/verified.
 func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 	buffer := xbase.NewBuffer()
+	baseType := hashType & sigHashMask
+	anyOneCanPay := hashType&SigHashAnyOneCanPay != 0
+
+	// SINGLE without the matching output: the published digest is the number one.
+	if baseType == SigHashSingle && idx >= len(tx.outputs) {
+		one := make([]byte, hashSize)
+		one[0] = 0x01
+		return one
+	}
 
 	// version
 	buffer.WriteU32(tx.version)
-	switch hashType {
-	case SigHashAll:
+
+	// inputs
+	if anyOneCanPay {
+		buffer.WriteVarInt(1)
+	} else {
 		buffer.WriteVarInt(uint64(len(tx.inputs)))
-		for i, in := range tx.inputs {
-			buffer.WriteBytes(in.Hash)
-			buffer.WriteU32(in.Index)
-			if i == idx {
-				if in.RedeemScript != nil {
-					buffer.WriteVarBytes(in.RedeemScript)
-				} else {
-					script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
-					buffer.WriteVarBytes(script)
-				}
-			} else {
-				buffer.WriteVarBytes(nil)
+	}
+	for i, in := range tx.inputs {
+		if anyOneCanPay && i != idx {
+			continue
+		}
+		buffer.WriteBytes(in.Hash)
+		buffer.WriteU32(in.Index)
+		if i == idx {
+			script := in.FinalLockingScript
+			if in.RedeemScript != nil {
+				script = in.RedeemScript
 			}
+			buffer.WriteVarBytes(xvm.RemoveOpcode(script, byte(xvm.OP_CODESEPARATOR)))
+		} else {
+			buffer.WriteVarBytes(nil)
+		}
+		if i != idx && (baseType == SigHashNone || baseType == SigHashSingle) {
+			buffer.WriteU32(0)
+		} else {
 			buffer.WriteU32(in.Sequence)
 		}
+	}
 
+	// outputs
+	switch baseType {
+	case SigHashNone:
+		buffer.WriteVarInt(0)
+	case SigHashSingle:
+		buffer.WriteVarInt(uint64(idx + 1))
+		for i := 0; i < idx; i++ {
+			buffer.WriteU64(0xffffffffffffffff)
+			buffer.WriteVarBytes(nil)
+		}
+		buffer.WriteU64(tx.outputs[idx].Value)
+		buffer.WriteVarBytes(tx.outputs[idx].Script)
+	default:
 		buffer.WriteVarInt(uint64(len(tx.outputs)))
 		for _, out := range tx.outputs {
 			buffer.WriteU64(out.Value)
-- 
2.43.0


From cd6332532ab66cec5c947b2abe6a6f42f3171125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 23/71] fix: xcore: the witness signature hash follows BIP143
 for every hash type and keeps no stale part

---
 xcore/transaction.go | 87 ++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 47 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 297a69b..6ec3fd3 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -111,13 +111,10 @@ func NewTxOut(value uint64, script []byte) *TxOut {
 
 // Transaction -- the bitcoin transaction.
 type Transaction struct {
-	version      uint32
-	lockTime     uint32
-	inputs       []*TxIn
-	outputs      []*TxOut
-	hashPrevouts []byte
-	hashSequence []byte
-	hashOutputs  []byte
+	version  uint32
+	lockTime uint32
+	inputs   []*TxIn
+	outputs  []*TxOut
 }
 
 // NewTransaction -- creates a new Transaction.
@@ -360,67 +357,63 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 
 // WitnessV0SignatureHash -- returns transaction witness V0 signature hash.
 func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []byte {
-	var zeroHash [32]byte
 	txIn := tx.inputs[idx]
+	baseType := hashType & sigHashMask
+	anyOneCanPay := hashType&SigHashAnyOneCanPay != 0
 
 	// hashPrevouts.
-	// If anyone can pay isn't active, then we can use the cached
-	// hashPrevOuts, otherwise we just write zeroes for the prev outs.
-	if (hashType & SigHashAnyOneCanPay) == 0 {
-		if tx.hashPrevouts == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteBytes(in.Hash[:])
-				hashBuffer.WriteU32(in.Index)
-			}
-			tx.hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	// Zeroes if anyone can pay is active.
+	hashPrevouts := make([]byte, hashSize)
+	if !anyOneCanPay {
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteBytes(in.Hash)
+			hashBuffer.WriteU32(in.Index)
 		}
-	} else {
-		tx.hashPrevouts = zeroHash[:]
+		hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
-	// If the sighash isn't anyone can pay, single, or none, the use the
-	// cached hash sequences, otherwise write all zeroes for the
 	// hashSequence.
-	if (hashType&SigHashAnyOneCanPay) == 0 && (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
-		if tx.hashSequence == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteU32(in.Sequence)
-			}
-			tx.hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	// Zeroes if the sighash is anyone can pay, single, or none.
+	hashSequence := make([]byte, hashSize)
+	if !anyOneCanPay && baseType != SigHashSingle && baseType != SigHashNone {
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteU32(in.Sequence)
 		}
-	} else {
-		tx.hashSequence = zeroHash[:]
+		hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
-	// If the current signature mode isn't single, or none, then we can
-	// re-use the pre-generated hashoutputs sighash fragment. Otherwise,
-	// we'll serialize and add only the target output index to the signature
-	// pre-image.
-	if hashType&SigHashSingle != SigHashSingle && hashType&SigHashNone != SigHashNone {
-		if tx.hashOutputs == nil {
+	// hashOutputs.
+	// All the outputs, or for single the output with the same index (zeroes
+	// if there is none), or zeroes for none.
+	hashOutputs := make([]byte, hashSize)
+	if baseType == SigHashSingle {
+		if idx < len(tx.outputs) {
 			hashBuffer := xbase.NewBuffer()
-			for _, out := range tx.outputs {
-				hashBuffer.WriteU64(out.Value)
-				hashBuffer.WriteVarBytes(out.Script)
-			}
-			tx.hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+			hashBuffer.WriteU64(tx.outputs[idx].Value)
+			hashBuffer.WriteVarBytes(tx.outputs[idx].Script)
+			hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
 		}
-	} else {
-		tx.hashOutputs = zeroHash[:]
+	} else if baseType != SigHashNone {
+		hashBuffer := xbase.NewBuffer()
+		for _, out := range tx.outputs {
+			hashBuffer.WriteU64(out.Value)
+			hashBuffer.WriteVarBytes(out.Script)
+		}
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(tx.version)
-	buffer.WriteBytes(tx.hashPrevouts)
-	buffer.WriteBytes(tx.hashSequence)
+	buffer.WriteBytes(hashPrevouts)
+	buffer.WriteBytes(hashSequence)
 	buffer.WriteBytes(txIn.Hash)
 	buffer.WriteU32(txIn.Index)
 	buffer.WriteVarBytes(txIn.WitnessScriptCode)
 	buffer.WriteU64(txIn.Value)
 	buffer.WriteU32(txIn.Sequence)
-	buffer.WriteBytes(tx.hashOutputs)
+	buffer.WriteBytes(hashOutputs)
 	buffer.WriteU32(tx.lockTime)
 	buffer.WriteU32(uint32(hashType))
 	return xcrypto.DoubleSha256(buffer.Bytes())
-- 
2.43.0


From ac1abedf5a2c0bc306fa95ea8d8178d9fd9370ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 24/71] fix: xcore: a P2WSH input verifies only against the
 script its program commits to

---
 xcore/script_p2wsh_v0.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 4aba5d0..e4d58db 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -47,6 +47,11 @@ func (s *PayToWitnessV0ScriptHashScript) GetRawLockingScriptBytes() ([]byte, err
 
 // GetFinalLockingScriptBytes -- used to get the re-written locking for witness.
 func (s *PayToWitnessV0ScriptHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byte, error) {
+	// Check sha256(redeem) == s.Hash
+	if !bytes.Equal(xcrypto.Sha256(redeem), s.hash) {
+		return nil, fmt.Errorf("PayToWitnessV0ScriptHashScript.GetFinalLockingScriptBytes.error:sha256(redeem)!=s.hash")
+	}
+
 	scriptInstance := NewPayToScriptHashScript(xcrypto.Hash160(redeem))
 	return scriptInstance.GetFinalLockingScriptBytes(redeem)
 }
-- 
2.43.0


From 8211e3bfd29d790391923b25e828b8f9350ffb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 25/71] fix: xcore: P2WSH witness conversion reports an
 unparsable script

---
 xcore/script_p2wsh_v0.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index e4d58db..53b263c 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -107,7 +107,10 @@ func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [
 	l := len(witness)
 	if l > 1 {
 		redeem := witness[len(witness)-1]
-		instrs, _ := xvm.NewScriptReader(redeem).AllInstructions()
+		instrs, err := xvm.NewScriptReader(redeem).AllInstructions()
+		if err != nil {
+			return nil, err
+		}
 		if isMultiSig(instrs) {
 			builder := xvm.NewScriptBuilder()
 			for i := 0; i < l-1; i++ {
-- 
2.43.0


From 7114cec33e065fc01f244650ed1c41a0f25375b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 26/71] fix: xcore: P2WPKH witness with a wrong number of items
 is an error, not a panic

---
 xcore/script_p2wpkh_v0.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 335a8a9..0f7565e 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -80,6 +82,12 @@ func (s *PayToWitnessV0PubKeyHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0PubKeyHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
+	if len(witness) == 0 {
+		return nil, nil
+	}
+	if len(witness) != 2 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.WitnessToUnlockingScriptBytes.error:witness.items[%v]", len(witness))
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(witness[0]).AddData(witness[1]).Script()
 }
-- 
2.43.0


From da0f1df34030260e580bd2178cac5203a61dd011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 27/71] fix: xcore: unlocking a key hash script without
 signatures is an error, not a panic

---
 xcore/script_p2pkh.go     | 5 +++++
 xcore/script_p2wpkh_v0.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/xcore/script_p2pkh.go b/xcore/script_p2pkh.go
index 6925d9a..52b6cd3 100644
--- a/xcore/script_p2pkh.go
+++ b/xcore/script_p2pkh.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -56,6 +58,9 @@ func (s *PayToPubKeyHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byt
 // unlocking: <sig> <pubkey>
 // witness:   (empty)
 func (s *PayToPubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToPubKeyHashScript.GetRawUnlockingScriptBytes.error:signs.empty")
+	}
 	builder := xvm.NewScriptBuilder()
 	unlocking, err := builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 	return unlocking, err
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 0f7565e..51bdc24 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -52,12 +52,18 @@ func (s *PayToWitnessV0PubKeyHashScript) GetFinalLockingScriptBytes(redeem []byt
 
 // GetRawUnlockingScriptBytes -- used to get raw unlocking script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.GetRawUnlockingScriptBytes.error:signs.empty")
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 }
 
 // GetWitnessUnlockingScriptBytes -- used to get witness script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetWitnessUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([][]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.GetWitnessUnlockingScriptBytes.error:signs.empty")
+	}
 	var witness [][]byte
 	witness = append(witness, signs[0].Signature)
 	witness = append(witness, signs[0].PubKey)
-- 
2.43.0


From 23d16d605abfb3cc5756338db4d0f3ad9ace1fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 28/71] fix: xcore: DecodeAddress checks the decoded
 human-readable part

---
 xcore/address.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcore/address.go b/xcore/address.go
index 16cf908..5d94589 100644
--- a/xcore/address.go
+++ b/xcore/address.go
@@ -36,10 +36,14 @@ func DecodeAddress(addr string, net *network.Network) (Address, error) {
 	if oneIndex == 2 {
 		prefix := addr[:oneIndex]
 		if prefix == net.Bech32HRPSegwit {
-			_, version, witnessProgram, err := xbase.WitnessDecode(addr)
+			hrp, version, witnessProgram, err := xbase.WitnessDecode(addr)
 			if err != nil {
 				return nil, err
 			}
+			// The hrp ends at the last '1', not at the first one.
+			if hrp != net.Bech32HRPSegwit {
+				return nil, xerror.NewError(Errors, ER_ADDRESS_FORMAT_MALFORMED, addr)
+			}
 			switch version {
 			case 0x00:
 				switch len(witnessProgram) {
-- 
2.43.0


From 7444ddeaedde0bebf80bee16db6b2f7f3e478645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 29/71] fix: xcore: a negative number of required keys is
 refused

---
 xcore/script_multsig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/script_multsig.go b/xcore/script_multsig.go
index 972865e..6e4478b 100644
--- a/xcore/script_multsig.go
+++ b/xcore/script_multsig.go
@@ -43,7 +43,7 @@ func (s *PayToMultiSigScript) GetLockingScriptBytes() ([]byte, error) {
 // OP_CHECKMULTISIG
 func GenMultiSigScript(nrequired int, pkDatas ...[]byte) ([]byte, error) {
 	// Check the nrequired is valid
-	if len(pkDatas) < nrequired {
+	if nrequired < 0 || len(pkDatas) < nrequired {
 		return nil, xerror.NewError(Errors, ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, len(pkDatas), nrequired)
 	}
 	builder := xvm.NewScriptBuilder()
-- 
2.43.0


From 218508592e52c5ce04afa6890de12878d2075b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 30/71] fix: xcore: a fee that does not fit is refused instead
 of turning negative

---
 xcore/transactionbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 31d5a01..8e9b0a9 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -257,7 +257,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 		estimateFees = EstimateFees(estimateSize, b.relayFeePerKb)
 		fees = estimateFees
 	}
-	if fees > b.maxFees {
+	if fees < 0 || fees > b.maxFees {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, fees, b.maxFees)
 	}
 
-- 
2.43.0


From 3996a3cd5af7d054b632eaa660de212d2da80983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 31/71] fix: xcore: amounts and their sums cannot wrap around

---
 xcore/error.go              |  2 ++
 xcore/transactionbuilder.go | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/xcore/error.go b/xcore/error.go
index 8a8e250..39d3c04 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -31,6 +31,7 @@ const (
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY          int = 5105
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH      int = 5106
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
+	ER_TRANSACTION_BUILDER_AMOUNT_TOO_HIGH         int = 5108
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -58,6 +59,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY:          {Num: ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, State: "TTB00", Message: "transaction.builder.sign.but.key.is.empty.at.input.idx[%v]"},
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH:      {Num: ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, State: "TTB00", Message: "transaction.builder.min.fee[%v].not.enough.from.change.value[%v]"},
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
+	ER_TRANSACTION_BUILDER_AMOUNT_TOO_HIGH:         {Num: ER_TRANSACTION_BUILDER_AMOUNT_TOO_HIGH, State: "TTB00", Message: "transaction.builder.amount[%v].too.high.with.total[%v]"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 8e9b0a9..cf3739c 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -17,6 +17,9 @@ import (
 const (
 	// Unit -- satoshi unit
 	Unit = 1e8
+
+	// MaxAmount -- the maximum amount of all coins, in satoshi.
+	MaxAmount = 21e6 * Unit
 )
 
 type change struct {
@@ -161,6 +164,14 @@ func (b *TransactionBuilder) Then() *TransactionBuilder {
 	return b
 }
 
+// addAmount -- adds value to total, neither may exceed the maximum amount.
+func addAmount(total int64, value uint64) (int64, error) {
+	if value > MaxAmount || total+int64(value) > MaxAmount {
+		return 0, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_TOO_HIGH, value, total)
+	}
+	return total + int64(value), nil
+}
+
 // BuildTransaction -- build the transaction.
 func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	var totalIn int64
@@ -195,7 +206,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 					return nil, err
 				}
 				txins = append(txins, txin)
-				totalIn += int64(grpinput.value)
+				if totalIn, err = addAmount(totalIn, grpinput.value); err != nil {
+					return nil, err
+				}
 
 				// inputs.
 				input := &input{
@@ -228,7 +241,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				}
 				txout := NewTxOut(grpoutput.value, script)
 				txouts = append(txouts, txout)
-				totalOut += int64(grpoutput.value)
+				if totalOut, err = addAmount(totalOut, grpoutput.value); err != nil {
+					return nil, err
+				}
 			}
 		}
 	}
-- 
2.43.0


From b30095c17b07cbb271e574cafe03e7e0bf106ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 32/71] fix: xcore: an output without a destination is refused,
 not burnt

---
 xcore/transactionbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index cf3739c..cd9fcc8 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -239,6 +239,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 						return nil, err
 					}
 				}
+				if len(script) == 0 {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_SENDTO_EMPTY)
+				}
 				txout := NewTxOut(grpoutput.value, script)
 				txouts = append(txouts, txout)
 				if totalOut, err = addAmount(totalOut, grpoutput.value); err != nil {
-- 
2.43.0


From e349078e80572fc67e69e4239d9d421e51f606dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 33/71] fix: xcore: a missing change address is an error, not a
 panic

---
 xcore/transactionbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index cd9fcc8..580e463 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -291,7 +291,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	// Change.
 	{
 		if changeAmount > 0 {
-			if b.change == nil {
+			if b.change == nil || b.change.addr == nil {
 				return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_CHANGETO_EMPTY)
 			}
 			script, err := b.change.addr.LockingScript()
-- 
2.43.0


From 71b631b11114acfcc3157359796418f9536e1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 34/71] fix: xcore: a coin whose txid is not 32 bytes is
 refused

---
 xcore/transactionbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 580e463..e83b595 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -7,6 +7,7 @@ package xcore
 
 import (
 	"encoding/hex"
+	"fmt"
 
 	"github.com/keyfuse/tokucore/xbase"
 	"github.com/keyfuse/tokucore/xcrypto"
@@ -196,6 +197,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				if err != nil {
 					return nil, err
 				}
+				if len(txid) != hashSize {
+					return nil, fmt.Errorf("transaction.builder.txid[%v].malformed", grpinput.txID)
+				}
 				// Hex to script.
 				script, err := hex.DecodeString(grpinput.script)
 				if err != nil {
-- 
2.43.0


From bd03c7293ffeec3377b87e09efd7788999fd1157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 35/71] fix: bip32: unusable seeds, unusable indexes and a too
 deep child are refused

---
 xcore/bip32/hdkey.go | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 1203804..beefa3a 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -9,6 +9,8 @@ import (
 	"bytes"
 	"crypto/rand"
 	"fmt"
+	"math"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -19,6 +21,7 @@ import (
 	"github.com/keyfuse/tokucore/network"
 	"github.com/keyfuse/tokucore/xbase"
 	"github.com/keyfuse/tokucore/xcrypto"
+	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
 )
 
 // Formulas:
@@ -59,6 +62,7 @@ type HDKey struct {
 }
 
 // NewHDKey -- creates a new master HDKey from a seed.
+// It returns nil for the unusable seeds (< 1 in 2^127), as defined in BIP32.
 func NewHDKey(seed []byte) *HDKey {
 	hmac := hmac.New(sha512.New, []byte("Bitcoin seed"))
 	if _, err := hmac.Write(seed); err != nil {
@@ -69,6 +73,11 @@ func NewHDKey(seed []byte) *HDKey {
 	// Spit it into our key and chain code.
 	keyBytes := intermediary[:32]
 	chainCode := intermediary[32:]
+
+	// The seed is unusable when the key is not in [1, n-1].
+	if !isValidScalar(keyBytes) {
+		return nil
+	}
 	prvkey := xcrypto.PrvKeyFromBytes(keyBytes)
 	return &HDKey{
 		childNum:  []byte{0x00, 0x00, 0x00, 0x00},
@@ -86,7 +95,11 @@ func NewHDKeyRand() (*HDKey, error) {
 	if _, err := rand.Read(seed); err != nil {
 		return nil, err
 	}
-	return NewHDKey(seed), nil
+	k := NewHDKey(seed)
+	if k == nil {
+		return nil, fmt.Errorf("hdkey.seed.unusable")
+	}
+	return k, nil
 }
 
 // Derive -- returns a derived child extended key at the given index.
@@ -125,6 +138,11 @@ func (k *HDKey) Derive(childIdx uint32) (*HDKey, error) {
 		return nil, fmt.Errorf("hdkey.derive.a.hardened.key.from.public.key.erro")
 	}
 
+	// The depth is serialized as one byte.
+	if k.depth == math.MaxUint8 {
+		return nil, fmt.Errorf("hdkey.derive.beyond.max.depth[%v]", math.MaxUint8)
+	}
+
 	// Split "I" into two 32-byte sequences Il and Ir where:
 	//   Il = intermediate key used to derive the child
 	//   Ir = child chain code
@@ -141,23 +159,30 @@ func (k *HDKey) Derive(childIdx uint32) (*HDKey, error) {
 		isPrivate: k.isPrivate,
 	}
 
+	// The index is unusable when Il is not less than n, or the child key is zero
+	// or the point at infinity.
 	prvkeyBytes := intermediary[:32]
+	if new(big.Int).SetBytes(prvkeyBytes).Cmp(secp256k1.SECP256K1().Params().N) >= 0 {
+		return nil, fmt.Errorf("hdkey.derive.index[%v].invalid.child", childIdx)
+	}
 	if k.isPrivate {
 		pubkeyBytes := k.prvkey.PubKey().Serialize()
 		fingerprint := xcrypto.Hash160(pubkeyBytes)
 		childKey.parentFP = fingerprint[:4]
 		childKey.prvkey = k.prvkey.Add(prvkeyBytes)
+		if childKey.prvkey.D.Sign() == 0 {
+			return nil, fmt.Errorf("hdkey.derive.index[%v].invalid.child", childIdx)
+		}
 	} else {
 		pubkeyBytes := k.pubkey.Serialize()
 		fingerprint := xcrypto.Hash160(pubkeyBytes)
 		childKey.parentFP = fingerprint[:4]
 
 		privkey := xcrypto.PrvKeyFromBytes(prvkeyBytes)
-		p2, err := xcrypto.PubKeyFromBytes(privkey.PubKey().SerializeUncompressed())
-		if err != nil {
-			return nil, err
+		childKey.pubkey = k.pubkey.Add(privkey.PubKey())
+		if childKey.pubkey.X.Sign() == 0 && childKey.pubkey.Y.Sign() == 0 {
+			return nil, fmt.Errorf("hdkey.derive.index[%v].invalid.child", childIdx)
 		}
-		childKey.pubkey = k.pubkey.Add(p2)
 	}
 	return childKey, nil
 }
@@ -326,3 +351,9 @@ func uint32ToBytes(i uint32) []byte {
 	binary.BigEndian.PutUint32(bytes, i)
 	return bytes
 }
+
+// isValidScalar -- returns true if the big-endian number is in [1, n-1].
+func isValidScalar(b []byte) bool {
+	d := new(big.Int).SetBytes(b)
+	return d.Sign() > 0 && d.Cmp(secp256k1.SECP256K1().Params().N) < 0
+}
-- 
2.43.0


From b630832bc177ce6c4fb8ca2ac673e40b4463e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 36/71] fix: bip32: an empty path step is an error, not a panic

---
 xcore/bip32/hdkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index beefa3a..4185bd8 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -203,6 +203,9 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 	for i := 1; i < len(steps); i++ {
 		var isHardened bool
 		step := steps[i]
+		if step == "" {
+			return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
+		}
 		if step[len(step)-1] == '\'' {
 			isHardened = true
 			step = step[:len(step)-1]
-- 
2.43.0


From 6b47bee8797b2de67cb4ccf3865b6cac590be336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 37/71] fix: bip32: a hardened path index cannot wrap around to
 a normal child

---
 xcore/bip32/hdkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 4185bd8..db297ba 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -216,6 +216,9 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 			return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
 		}
 		if isHardened {
+			if idx >= HardenedKeyStart {
+				return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
+			}
 			idx += HardenedKeyStart
 		}
 		hd, err = hd.Derive(uint32(idx))
-- 
2.43.0


From e399a54e99ac2aef3354991db1d9a51a90733849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 38/71] fix: bip32: an imported key must have a known version
 that agrees with its key, and a key in range

---
 xcore/bip32/hdkey.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index db297ba..fb6e402 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -320,19 +320,36 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 		return nil, fmt.Errorf("hdkey.serialized.key.wrong.size.want[%v].got[%v]", serializedKeyLen+4, len(data))
 	}
 
+	// validate checksum
+	cs1 := xcrypto.DoubleSha256(data[0 : len(data)-4])[:4]
+	cs2 := data[len(data)-4:]
+	if !bytes.Equal(cs1, cs2) {
+		return nil, fmt.Errorf("hdkey.checksum.mismatch")
+	}
+
 	// The serialized format is:
 	//   version (4) || depth (1) || parent fingerprint (4)) ||
 	//   child num (4) || chain code (32) || key data (33) || checksum (4)
 	var k = &HDKey{}
+	version := data[:4]
 	k.depth = data[4]
 	k.parentFP = data[5:9]
 	k.childNum = data[9:13]
 	k.chainCode = data[13:45]
 
 	if data[45] == byte(0) {
+		if !bytes.Equal(version, network.MainNet.HDPrivateKeyID) && !bytes.Equal(version, network.TestNet.HDPrivateKeyID) {
+			return nil, fmt.Errorf("hdkey.version[%x].is.not.a.private.key", version)
+		}
+		if !isValidScalar(data[46:78]) {
+			return nil, fmt.Errorf("hdkey.private.key.out.of.range")
+		}
 		k.isPrivate = true
 		k.prvkey = xcrypto.PrvKeyFromBytes(data[46:78])
 	} else {
+		if !bytes.Equal(version, network.MainNet.HDPublicKeyID) && !bytes.Equal(version, network.TestNet.HDPublicKeyID) {
+			return nil, fmt.Errorf("hdkey.version[%x].is.not.a.public.key", version)
+		}
 		k.isPrivate = false
 		pubkey, err := xcrypto.PubKeyFromBytes(data[45:78])
 		if err != nil {
@@ -341,14 +358,6 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 		k.pubkey = pubkey
 	}
 
-	// validate checksum
-	cs1 := xcrypto.DoubleSha256(data[0 : len(data)-4])[:4]
-	cs2 := data[len(data)-4:]
-	for i := range cs1 {
-		if cs1[i] != cs2[i] {
-			return nil, fmt.Errorf("hdkey.checksum.mismatch")
-		}
-	}
 	return k, nil
 }
 
-- 
2.43.0


From d6747c2e5ec91524abf1de3807ba1cd91cc30ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 39/71] fix: bip39: entropy comes from the system's secure
 random source

---
 xcore/bip39/bip39.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 8f3e035..a3c22c2 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -7,15 +7,14 @@
 package bip39
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
-	"math/rand"
 	"strings"
-	"time"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -106,9 +105,10 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	random := rand.New(rand.NewSource(time.Now().UnixNano()))
-	_, err = random.Read(entropy)
-	return entropy, err
+	if _, err = rand.Read(entropy); err != nil {
+		return nil, err
+	}
+	return entropy, nil
 }
 
 // EntropyFromMnemonic takes a mnemonic generated by this library,
-- 
2.43.0


From b1819cd3ab62eb5592e329288cacde37b6143c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 40/71] fix: bip39: MnemonicToByteArray splits words as its
 validation does

---
 xcore/bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index a3c22c2..45a2c59 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -211,7 +211,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice    = strings.Split(mnemonic, " ")
+		mnemonicSlice    = strings.Fields(mnemonic)
 		entropyBitSize   = len(mnemonicSlice) * 11
 		checksumBitSize  = entropyBitSize % 32
 		fullByteSize     = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From f5e3a21f56840e6b1cb6110b21044a4827939edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 41/71] fix: bip39: NewBIP39 no longer switches the word list
 of the whole package

---
 xcore/bip39/bip39.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 45a2c59..65eeab6 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -164,6 +164,11 @@ func EntropyFromMnemonic(mnemonic string) ([]byte, error) {
 // the given entropy.
 // If the provide entropy is invalid, an error will be returned.
 func NewMnemonic(entropy []byte) (string, error) {
+	return newMnemonic(entropy, wordList)
+}
+
+// newMnemonic -- returns the mnemonic of the entropy in the words of list.
+func newMnemonic(entropy []byte, list []string) (string, error) {
 	// Compute some lengths for convenience.
 	entropyBitLength := len(entropy) * 8
 	checksumBitLength := entropyBitLength / 32
@@ -201,7 +206,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 		wordBytes := padByteSlice(word.Bytes(), 2)
 
 		// Convert bytes to an index and add that word to the list.
-		words[i] = wordList[binary.BigEndian.Uint16(wordBytes)]
+		words[i] = list[binary.BigEndian.Uint16(wordBytes)]
 	}
 	return strings.Join(words, " "), nil
 }
@@ -395,23 +400,25 @@ type BIP39 struct {
 }
 
 //NewBIP39 -- creates new BIP39.
+// The package-wide word list is unchanged.
 func NewBIP39(list Wordlists) (*BIP39, error) {
 	var err error
+	var wordList []string
 	bip39 := &BIP39{}
 
 	switch list {
 	case CHINESE:
-		SetWordList(words.Chinese)
+		wordList = words.Chinese
 	case JAPANESE:
-		SetWordList(words.Japanese)
+		wordList = words.Japanese
 	default:
-		SetWordList(words.English)
+		wordList = words.English
 	}
 
 	if bip39.entropy, err = NewEntropy(128); err != nil {
 		return nil, err
 	}
-	if bip39.mnemonic, err = NewMnemonic(bip39.entropy); err != nil {
+	if bip39.mnemonic, err = newMnemonic(bip39.entropy, wordList); err != nil {
 		return nil, err
 	}
 	return bip39, nil
-- 
2.43.0


From d0e1d715fd384a9b2a9438031c00a87e7225fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 42/71] fix: secp256k1: SecUnmarshal refuses wrong lengths, x
 out of the field and x not on the curve

---
 xcrypto/secp256k1/sec.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xcrypto/secp256k1/sec.go b/xcrypto/secp256k1/sec.go
index 77ee42f..54377de 100644
--- a/xcrypto/secp256k1/sec.go
+++ b/xcrypto/secp256k1/sec.go
@@ -37,16 +37,25 @@ func SecUnmarshal(curve elliptic.Curve, data []byte) (*big.Int, *big.Int) {
 	curveParams := curve.Params()
 
 	// Check format.
+	byteLen := (curveParams.BitSize + 7) >> 3
+	if len(data) != 1+byteLen {
+		return nil, nil
+	}
 	if (data[0] &^ 1) != 2 {
 		return nil, nil
 	}
 
 	// y^2 = x^3 + b
 	X.SetBytes(data[1:])
+	if X.Cmp(curveParams.P) >= 0 {
+		return nil, nil
+	}
 	ySquared := big.NewInt(0)
 	ySquared.Exp(X, three, nil)
 	ySquared.Add(ySquared, curveParams.B)
-	Y.ModSqrt(ySquared, curveParams.P)
+	if Y.ModSqrt(ySquared, curveParams.P) == nil {
+		return nil, nil
+	}
 
 	// Y is odd or even.
 	if Y.Bit(0) != uint(data[0]&1) {
-- 
2.43.0


From afab86282496f989ed66c45158b0fba042b7db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 43/71] fix: xcrypto: prefix 0x05 is not a public key

---
 xcrypto/pubkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/pubkey.go b/xcrypto/pubkey.go
index 622da2a..1fac785 100644
--- a/xcrypto/pubkey.go
+++ b/xcrypto/pubkey.go
@@ -49,7 +49,7 @@ func PubKeyFromBytes(key []byte) (*PubKey, error) {
 	switch pkLen {
 	case pubKeyBytesLenUncompressed:
 		// Format invalid.
-		if format != pubkeyUncompressed && format != pubkeyHybrid {
+		if format != pubkeyHybrid && key[0] != pubkeyUncompressed {
 			return nil, fmt.Errorf("pubkey.format.invalid:%v", format)
 		}
 
-- 
2.43.0


From 89fb4c7230b07529c1bf78889cc2bc5bd9970a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 44/71] fix: xcrypto: an ECDSA signature followed by other
 bytes is refused

---
 xcrypto/signature_ecdsa.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xcrypto/signature_ecdsa.go b/xcrypto/signature_ecdsa.go
index 8321685..cd67a09 100644
--- a/xcrypto/signature_ecdsa.go
+++ b/xcrypto/signature_ecdsa.go
@@ -36,8 +36,14 @@ func (sig *SignatureEcdsa) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureEcdsa) Deserialize(sign []byte) error {
-	_, err := asn1.Unmarshal(sign, sig)
-	return err
+	rest, err := asn1.Unmarshal(sign, sig)
+	if err != nil {
+		return err
+	}
+	if len(rest) != 0 {
+		return fmt.Errorf("ecdsa.signature.has.trailing.bytes[%v]", len(rest))
+	}
+	return nil
 }
 
 // EcdsaSign -- used get the ecdsa signature.
-- 
2.43.0


From 64bec80369a8731e846a246468efd12e5775c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 45/71] fix: xcrypto: a Schnorr signature is 64 bytes

---
 xcrypto/signature_schnorr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/signature_schnorr.go b/xcrypto/signature_schnorr.go
index dd194c5..6de1dc4 100644
--- a/xcrypto/signature_schnorr.go
+++ b/xcrypto/signature_schnorr.go
@@ -34,6 +34,9 @@ func (sig *SignatureSchnorr) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureSchnorr) Deserialize(sign []byte) error {
+	if len(sign) != 64 {
+		return fmt.Errorf("schnorr.signature.size[%v].invalid", len(sign))
+	}
 	sig.R = new(big.Int).SetBytes(sign[:32])
 	sig.S = new(big.Int).SetBytes(sign[32:])
 	return nil
-- 
2.43.0


From 5765c5f476d5845b9884cc49342a003249d650bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 46/71] fix: schnorr: r equal to p and s equal to n are refused

---
 xcrypto/schnorr/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index f86a4d1..239b492 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -89,7 +89,7 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 	P := curve.Params().P
 	N := curve.Params().N
 
-	if r.Cmp(P) > 0 || s.Cmp(N) > 0 {
+	if r.Sign() < 0 || s.Sign() < 0 || r.Cmp(P) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
 
-- 
2.43.0


From dd718fe61bf18f7480064a4702e11958dd6c9102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 47/71] fix: schnorr: GetK leaves the nonce it is given
 unchanged

---
 xcrypto/schnorr/schnorr.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index 239b492..36f8186 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -64,6 +64,7 @@ func Sign(prv *ecdsa.PrivateKey, m []byte) (*big.Int, *big.Int, error) {
 
 	// Clean.
 	zeroSlice(d)
+	k0.SetInt64(0)
 	k.SetInt64(0)
 
 	return Rx, s, nil
@@ -125,9 +126,9 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 	N := curve.Params().N
 
 	if big.Jacobi(Ry, P) == 1 {
-		return k0
+		return new(big.Int).Set(k0)
 	}
-	return k0.Sub(N, k0)
+	return new(big.Int).Sub(N, k0)
 }
 
 // GetE -- used get e under schnorr BIP.
-- 
2.43.0


From da072db27d9786cf4657eba93121e3e6d16a8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 48/71] fix: schnorr: GetK0 and GetE must not write into the
 spare capacity of their arguments

---
 xcrypto/schnorr/schnorr.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index 36f8186..685d9fb 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -111,7 +111,11 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 
 // GetK0 -- used get k0 under schnorr BIP.
 func GetK0(m []byte, d []byte, N *big.Int) (*big.Int, error) {
-	hash := sha256.Sum256(append(d, m[:]...))
+	data := make([]byte, 0, len(d)+len(m))
+	data = append(data, d...)
+	data = append(data, m...)
+	hash := sha256.Sum256(data)
+	zeroSlice(data)
 	i := new(big.Int).SetBytes(hash[:])
 	k0 := i.Mod(i, N)
 	if k0.Sign() == 0 {
@@ -134,8 +138,11 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 // GetE -- used get e under schnorr BIP.
 func GetE(curve elliptic.Curve, m []byte, Px, Py *big.Int, rX []byte) *big.Int {
 	N := curve.Params().N
-	r := append(rX, secp256k1.SecMarshal(curve, Px, Py)...)
-	r = append(r, m[:]...)
+	p := secp256k1.SecMarshal(curve, Px, Py)
+	r := make([]byte, 0, len(rX)+len(p)+len(m))
+	r = append(r, rX...)
+	r = append(r, p...)
+	r = append(r, m...)
 	h := sha256.Sum256(r)
 	i := new(big.Int).SetBytes(h[:])
 	return i.Mod(i, N)
-- 
2.43.0


From 6b2fa9752eaf7ef7e3162ed53ed47007f69dc8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 49/71] fix: xcrypto: Schnorr parties sign the challenge of the
 shared nonce

---
 xcrypto/mpc_schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 584dd33..b8f40eb 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -85,11 +85,10 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	prv := party.prv
 	pub := sharePub
 	curve := party.curve
-	scalarR := party.r
 	shareScalarR := shareR
 
 	// e = int(hash(bytes(x(R)) || bytes(dG) || m)) mod n
-	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(scalarR.X))
+	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(shareScalarR.X))
 
 	// ed
 	ed := new(big.Int)
-- 
2.43.0


From 509de827c2c7845e1cff7d2f28e1c1394687887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 50/71] fix: xcrypto: merkle padding is not hashed into the
 tree

---
 xcrypto/merkle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index de5f23b..332cb67 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -55,6 +55,9 @@ func NewMerkle(hashs [][]byte) *Merkle {
 		for j := 0; j < len(level); j += 2 {
 			left := level[j]
 			right := level[j+1]
+			if left == nil {
+				break
+			}
 			if right == nil {
 				next[offset] = merkleNode(left, left)
 				break
-- 
2.43.0


From c40cba8f40b8ef4cdff71274cac244e28267e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 51/71] fix: xcrypto: the merkle tree of no hashes is empty,
 not a panic

---
 xcrypto/merkle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index 332cb67..98e1f08 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -41,6 +41,9 @@ type Merkle struct {
 // If the right is nil(the size is not power of 2), hashed with itself.
 func NewMerkle(hashs [][]byte) *Merkle {
 	n := len(hashs)
+	if n == 0 {
+		return &Merkle{levels: [][][]byte{{nil}}}
+	}
 	depth := int(math.Ceil(math.Log2(float64(n))))
 	pow2 := int(math.Pow(2, float64(depth)))
 	levels := make([][][]byte, depth+1)
-- 
2.43.0


From b20249d32ea14b1eac478d6b2cfa462f5d67773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 52/71] fix: xcrypto: joint ECDSA signatures carry R reduced
 modulo the order and not zero

---
 xcrypto/mpc_ecdsa.go        | 6 +++++-
 xcrypto/scriptless_ecdsa.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index 8f6cecc..0dd5eb8 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -157,8 +157,12 @@ func (party *EcdsaParty) Phase5(shareR *secp256k1.Scalar, sign2 *big.Int) ([]byt
 	if s.Sign() == 0 {
 		return nil, errors.New("calculated S is zero")
 	}
+	r := new(big.Int).Mod(shareR.X, N)
+	if r.Sign() == 0 {
+		return nil, errors.New("calculated R is zero")
+	}
 	esig := NewSignatureEcdsa()
-	esig.R = shareR.X
+	esig.R = r
 	esig.S = s
 	return esig.Serialize()
 }
diff --git a/xcrypto/scriptless_ecdsa.go b/xcrypto/scriptless_ecdsa.go
index 3e3866a..0eb9e77 100644
--- a/xcrypto/scriptless_ecdsa.go
+++ b/xcrypto/scriptless_ecdsa.go
@@ -137,8 +137,12 @@ func (bob *EcdsaBob) ScriptlessPhase6(shareR *secp256k1.Scalar, sig *big.Int) ([
 	if s.Sign() == 0 {
 		return nil, errors.New("calculated S is zero")
 	}
+	r := new(big.Int).Mod(shareR.X, N)
+	if r.Sign() == 0 {
+		return nil, errors.New("calculated R is zero")
+	}
 	esig := NewSignatureEcdsa()
-	esig.R = shareR.X
+	esig.R = r
 	esig.S = s
 	return esig.Serialize()
 }
-- 
2.43.0


From 4485829a60f3b33f77672d2d6681ab975fd97c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 53/71] fix: xvm: Verify starts from empty stacks

---
 xvm/engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xvm/engine.go b/xvm/engine.go
index b6f20b6..d1b6509 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -88,6 +88,7 @@ func (vm *Engine) Execute(program []byte) error {
 // Verify -- verify the unlocking and locking.
 func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	// Unlocking.
+	vm.reset()
 	if err := vm.execute(unlocking, false); err != nil {
 		return err
 	}
@@ -184,5 +185,6 @@ func (vm *Engine) branchShouldSkip() bool {
 
 func (vm *Engine) reset() {
 	vm.pc = 0
+	vm.cstack = nil
 	vm.dstack.Clean()
 }
-- 
2.43.0


From 2d62c16c1bd5989570ccb9cfa238fecb4d0185b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 54/71] fix: xvm: a script that ends inside a conditional fails

---
 xvm/engine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xvm/engine.go b/xvm/engine.go
index d1b6509..bc7fff3 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -157,6 +157,9 @@ func (vm *Engine) execute(program []byte, final bool) error {
 		vm.lastOp = vm.instruction.op.name
 	}
 
+	if len(vm.cstack) != 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "unbalanced.conditional.at.end.of.script.execution")
+	}
 	if final {
 		if vm.dstack.Depth() > 0 {
 			v, err := vm.dstack.PopBool()
-- 
2.43.0


From 9b3c44bf4e4af1c554272eb4b274774f40d974f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 55/71] fix: xvm: Verify must not write into the spare capacity
 of the unlocking script

---
 xvm/engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index bc7fff3..ccb191d 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -96,7 +96,9 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 
 	// Reset.
 	vm.reset()
-	script := append(unlocking, locking...)
+	script := make([]byte, 0, len(unlocking)+len(locking))
+	script = append(script, unlocking...)
+	script = append(script, locking...)
 	if err := vm.execute(script, true); err != nil {
 		return err
 	}
-- 
2.43.0


From f684dc12a44eda2cd62b4b1d2bcb09165fb70638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 56/71] fix: xvm: the redeem script of a script hash is always
 executed, whatever is left on the stack

---
 xvm/engine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index ccb191d..adeca10 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -104,7 +104,7 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	}
 
 	// P2SH.
-	if vm.dstack.Depth() > 1 {
+	if isScriptHash(locking) {
 		vm.dstack = copyStk
 		redeem, err := vm.dstack.PopByteArray()
 		if err != nil {
@@ -115,6 +115,14 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	return nil
 }
 
+// isScriptHash -- returns true if the locking script is OP_HASH160 <20-bytes> OP_EQUAL.
+func isScriptHash(locking []byte) bool {
+	return len(locking) == 23 &&
+		locking[0] == OP_HASH160 &&
+		locking[1] == OP_DATA_20 &&
+		locking[22] == OP_EQUAL
+}
+
 // Traces -- returns the trace records.
 func (vm *Engine) Traces() []Trace {
 	return vm.traces
-- 
2.43.0


From cc67d8dcf3181a15a1094616a0039ab49f59186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 57/71] fix: xvm: OP_CHECKMULTISIG refuses negative and huge
 key and signature counts

---
 xvm/instruction_crypto.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index 43901c1..a9af210 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -12,6 +12,9 @@ import (
 	"github.com/keyfuse/tokucore/xerror"
 )
 
+// maxPubKeysPerMultiSig -- the most keys a multi-signature instruction may check.
+const maxPubKeysPerMultiSig = 20
+
 // Stack:
 // [... signature pubkey] -> [... bool]
 func opHash160(vm *Engine) error {
@@ -80,6 +83,9 @@ func opCheckMultiSig(vm *Engine) error {
 		return err
 	}
 	n := int(numKeys.Int32())
+	if n < 0 || n > maxPubKeysPerMultiSig {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:pubkeys.count[%v].invalid", n))
+	}
 	pubKeys := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		pubKey, err := vm.dstack.PopByteArray()
@@ -95,6 +101,9 @@ func opCheckMultiSig(vm *Engine) error {
 		return err
 	}
 	m := int(numSignatures.Int32())
+	if m < 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:signatures.count[%v].invalid", m))
+	}
 	if m > n {
 		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:more.signatures[%v].than.pubkeys[%v]", m, n))
 	}
-- 
2.43.0


From 9732b1ff7fa8ef132d559aeb559df35cc0448d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 58/71] fix: xvm: an empty signature in OP_CHECKMULTISIG is a
 failed signature, not a panic

---
 xvm/instruction_crypto.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index a9af210..db929d6 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -130,17 +130,20 @@ func opCheckMultiSig(vm *Engine) error {
 	// Signature verify.
 	success := true
 	for sigIdx, pubKeyIdx := 0, 0; success && (sigIdx < m) && (pubKeyIdx < n); {
+		// An empty signature matches no key.
 		sig := signatures[sigIdx]
-		hashType := sig[len(sig)-1]
-		sigDER := sig[:len(sig)-1]
-
-		hash, err := vm.sigHasher(hashType)
-		if err != nil {
-			return err
-		}
-
-		if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {
-			sigIdx++
+		if len(sig) > 0 {
+			hashType := sig[len(sig)-1]
+			sigDER := sig[:len(sig)-1]
+
+			hash, err := vm.sigHasher(hashType)
+			if err != nil {
+				return err
+			}
+
+			if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {
+				sigIdx++
+			}
 		}
 		pubKeyIdx++
 		if (n - pubKeyIdx) < (m - sigIdx) {
-- 
2.43.0


From 01a96410d10c4b3969aa51e43a5883c381ab547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 59/71] fix: xvm: OP_CHECKMULTISIG without signature functions
 is an error, not a panic

---
 xvm/instruction_crypto.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index db929d6..b97d4f7 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -77,6 +77,13 @@ func opCheckSigVerify(vm *Engine) error {
 // Stack:
 // [... dummy [sig ...] numsigs [pubkey ...] numpubkeys] -> [... bool]
 func opCheckMultiSig(vm *Engine) error {
+	if vm.sigHasher == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.hasher.func.is.nil")
+	}
+	if vm.sigVerifier == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.verifier.func.is.nil")
+	}
+
 	// pubkeys.
 	numKeys, err := vm.dstack.PopInt()
 	if err != nil {
-- 
2.43.0


From 4e3d425b84f88c0caa403d37867bac9996eb4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 60/71] fix: xvm: OP_1NEGATE, which the script builder emits,
 is readable and executable

---
 xvm/instruction.go          | 1 +
 xvm/instruction_pushdata.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/xvm/instruction.go b/xvm/instruction.go
index fd2a7d4..699777c 100644
--- a/xvm/instruction.go
+++ b/xvm/instruction.go
@@ -172,6 +172,7 @@ var opcodes = map[byte]opcode{
 	OP_PUSHDATA1: {OP_PUSHDATA1, "OP_PUSHDATA1", -1, opPushData},
 	OP_PUSHDATA2: {OP_PUSHDATA2, "OP_PUSHDATA2", -2, opPushData},
 	OP_PUSHDATA4: {OP_PUSHDATA4, "OP_PUSHDATA4", -4, opPushData},
+	OP_1NEGATE:   {OP_1NEGATE, "OP_1NEGATE", 1, op1Negate},
 	OP_TRUE:      {OP_TRUE, "OP_1", 1, opN},
 	OP_2:         {OP_2, "OP_2", 1, opN},
 	OP_3:         {OP_3, "OP_3", 1, opN},
diff --git a/xvm/instruction_pushdata.go b/xvm/instruction_pushdata.go
index d8f66a4..a5bd8d8 100644
--- a/xvm/instruction_pushdata.go
+++ b/xvm/instruction_pushdata.go
@@ -18,3 +18,9 @@ func opN(vm *Engine) error {
 	vm.dstack.PushInt(ScriptNum((vm.instruction.op.value - (OP_1 - 1))))
 	return nil
 }
+
+// op1Negate -- pushes -1 to the data stack.
+func op1Negate(vm *Engine) error {
+	vm.dstack.PushInt(-1)
+	return nil
+}
-- 
2.43.0


From 222d943b6eb62a26e738c1b592285c390a998523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 61/71] fix: xvm: the smallest script number encodes instead of
 panicking

---
 xvm/scriptnum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xvm/scriptnum.go b/xvm/scriptnum.go
index 3ee6217..a292c7d 100644
--- a/xvm/scriptnum.go
+++ b/xvm/scriptnum.go
@@ -38,9 +38,9 @@ func (n ScriptNum) Bytes() []byte {
 		return nil
 	}
 	neg := n < 0
-	absvalue := n
+	absvalue := uint64(n)
 	if neg {
-		absvalue = -n
+		absvalue = -absvalue
 	}
 
 	// Encode to little endian.
-- 
2.43.0


From 340d597fbb4dddff5a249d6ed2d00422ab1558e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 62/71] fix: xbase: a reset buffer no longer overwrites the
 bytes it handed out

---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index ff34103..70ad66a 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -300,5 +300,5 @@ func (b *Buffer) End() bool {
 func (b *Buffer) Reset() {
 	b.seek = 0
 	b.length = 0
-	b.data = b.data[0:0]
+	b.data = nil
 }
-- 
2.43.0


From ca376f2750550e78f8a2ac5ed30eb927e0ca255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 63/71] fix: xrpc: a failure status is an error whatever the
 body says

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index b8b63d4..fccd46f 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -87,5 +87,8 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if rawResp.StatusCode < 200 || rawResp.StatusCode > 299 {
+		return nil, fmt.Errorf("rpc.http.status[%v]", rawResp.Status)
+	}
 	return resp, nil
 }
-- 
2.43.0


From ab62e3d958c0df449d7888fa6dfa0c76cf59848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 64/71] fix: xrpc: a reply without a result is an error, not a
 panic

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index fccd46f..f72668b 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -90,5 +90,8 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if rawResp.StatusCode < 200 || rawResp.StatusCode > 299 {
 		return nil, fmt.Errorf("rpc.http.status[%v]", rawResp.Status)
 	}
+	if resp.Result == nil {
+		return nil, fmt.Errorf("rpc.method[%v].result.is.null", method)
+	}
 	return resp, nil
 }
-- 
2.43.0


From 8381cac34da2c775741a29c18019fd3a03e52fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 65/71] fix: xrpc: block header links are hexadecimal text, not
 base64

---
 xrpc/models.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 55f7c20..1875df4 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -19,8 +19,8 @@ type BlockHeaderResult struct {
 	Bits              string  `json:"bits"`
 	Difficulty        float64 `json:"difficulty"`
 	ChainWork         string  `json:"chainwork"`
-	PreviousBlockHash []byte  `json:"previousblockhash"`
-	NextBlockHash     []byte  `json:"nextblockhash"`
+	PreviousBlockHash string  `json:"previousblockhash"`
+	NextBlockHash     string  `json:"nextblockhash"`
 }
 
 // BlockResult --
-- 
2.43.0


From 30ab817773ade9a8eabb7584a223c7ae565e33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 66/71] fix: xerror: an unregistered code yields its own error
 value with a stack

---
 xerror/error.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xerror/error.go b/xerror/error.go
index 11b93b0..ceb7546 100644
--- a/xerror/error.go
+++ b/xerror/error.go
@@ -23,7 +23,8 @@ type Error struct {
 func NewError(table map[int]*Error, number int, args ...interface{}) *Error {
 	errn, ok := table[number]
 	if !ok {
-		return Errors[ER_UNKNOWN]
+		errn = Errors[ER_UNKNOWN]
+		args = nil
 	}
 	return &Error{
 		Num:     errn.Num,
-- 
2.43.0


From 057d5e35a78b4d152604e7970959cf50e79cf203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 67/71] fix: xerror: errors print with %s and without a stack

---
 xerror/error.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xerror/error.go b/xerror/error.go
index ceb7546..1176864 100644
--- a/xerror/error.go
+++ b/xerror/error.go
@@ -45,14 +45,14 @@ func (e *Error) Error() string {
 // Format -- implements the error interface.
 func (e *Error) Format(s fmt.State, verb rune) {
 	switch verb {
-	case 'v':
+	case 'v', 's':
 		if _, err := io.WriteString(s, e.Message); err != nil {
 			return
 		}
 		if _, err := io.WriteString(s, fmt.Sprintf(" (errno %d) (state %s)", e.Num, e.State)); err != nil {
 			return
 		}
-		if s.Flag('+') {
+		if verb == 'v' && s.Flag('+') && e.stack != nil {
 			if _, err := io.WriteString(s, "\n"+e.stack.trace()); err != nil {
 				return
 			}
-- 
2.43.0


From e3bb6bdd19cec416d21776684b4cee0731bfba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 68/71] fix: writes to a buffer reader must not go into the
 spare capacity of the caller's slice

---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 70ad66a..7364128 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -24,7 +24,7 @@ func NewBuffer() *Buffer {
 // NewBufferReader -- creates a new buffer with data initialize.
 func NewBufferReader(data []byte) *Buffer {
 	return &Buffer{
-		data:   data,
+		data:   data[:len(data):len(data)],
 		length: len(data),
 	}
 }
-- 
2.43.0


From 5a01495909ee7685a35940ba7d99dd99143253b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 69/71] fix: ecdsa.Sign zeroes the nonce and its inverse on
 every way out

---
 xcrypto/ecdsa/ecdsa.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xcrypto/ecdsa/ecdsa.go b/xcrypto/ecdsa/ecdsa.go
index 73a4749..db81440 100644
--- a/xcrypto/ecdsa/ecdsa.go
+++ b/xcrypto/ecdsa/ecdsa.go
@@ -21,6 +21,7 @@ func Sign(priv *ecdsa.PrivateKey, hash []byte) (*big.Int, *big.Int, error) {
 
 	// RFC6979
 	k := NonceRFC6979(N, D, hash)
+	defer k.SetInt64(0)
 
 	// point (x1,y1) = k*G
 	// r = x1
@@ -34,6 +35,7 @@ func Sign(priv *ecdsa.PrivateKey, hash []byte) (*big.Int, *big.Int, error) {
 	e := HashToInt(c, hash)
 	s := new(big.Int).Mul(D, r)
 	kinv := new(big.Int).ModInverse(k, N)
+	defer kinv.SetInt64(0)
 	s.Add(s, e).Mul(s, kinv).Mod(s, N)
 
 	// The signature is composed of two values, the r value and the s value.
@@ -46,9 +48,6 @@ func Sign(priv *ecdsa.PrivateKey, hash []byte) (*big.Int, *big.Int, error) {
 	if s.Sign() == 0 {
 		return nil, nil, errors.New("calculated S is zero")
 	}
-
-	// Clean.
-	k.SetInt64(0)
 	return r, s, nil
 }
 
-- 
2.43.0


From e0bb84d21e7c72c74f1d5aa5f6cc6c5c636c73de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 70/71] fix: SchnorrParty.Phase4 zeroes its copy of the nonce

---
 xcrypto/mpc_schnorr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index b8f40eb..bfaa8da 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -99,6 +99,7 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	s := new(big.Int)
 	s.Add(k, ed)
 	s.Mod(s, N)
+	k.SetInt64(0)
 
 	return schnorr.IntToByte(s), nil
 }
-- 
2.43.0


From 938da913b2c22fb04af9e87950c8fd88394a90a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:20 +0000
Subject: [PATCH 71/71] fix: BuildTransaction refuses a change address with an
 empty locking script

---
 xcore/transactionbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index e83b595..890cec5 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -302,6 +302,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 			if err != nil {
 				return nil, err
 			}
+			if len(script) == 0 {
+				return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_CHANGETO_EMPTY)
+			}
 			changeTxOut = NewTxOut(uint64(changeAmount), script)
 		}
 	}
-- 
2.43.0

