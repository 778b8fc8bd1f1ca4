From 6da6bbadbf5dc8818048acacf02f034351334a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 01/22] fix: receive whole bulk strings and lines, reject
 malformed lengths

---
 redis/conn.go | 65 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index f74639b..c8470b2 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -2,6 +2,7 @@ package redis
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -95,10 +96,32 @@ func (c Conn) readBulkString(length int) string {
 	return ""
 }
 
+// read the \r\n that follows the data of a bulk string
 func (c Conn) discardEof() error {
-	_, _, err := c.Reader.ReadLine()
+	var eof [len(MessageEOF)]byte
+	if _, err := io.ReadFull(c.Reader, eof[:]); err != nil {
+		return err
+	}
+
+	if string(eof[:]) != MessageEOF {
+		return errors.New("bulk string is not terminated")
+	}
+
+	return nil
+}
+
+// read a whole line of any length, the line end is required and removed
+func (c Conn) readLine() ([]byte, error) {
+	line, err := c.Reader.ReadBytes('\n')
+	if err != nil {
+		return nil, err
+	}
 
-	return err
+	if !bytes.HasSuffix(line, []byte(MessageEOF)) {
+		return nil, errors.New("line is not terminated")
+	}
+
+	return line[:len(line)-len(MessageEOF)], nil
 }
 
 // save message content to io reader
@@ -116,7 +139,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 	switch protocol {
 	case ProtocolBulkString:
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return ProtocolBulkString, 0, err
 		}
@@ -139,7 +162,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 		return ProtocolBulkString, length, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolSimpleString, 0, err
 		}
@@ -147,21 +170,21 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 		return ProtocolSimpleString, n, err
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolError, 0, err
 		}
 		n, err := buf.Write(line)
 		return ProtocolError, n, err
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolInt, 0, err
 		}
 		n, err := buf.Write(line)
 		return ProtocolInt, n, err
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolArray, 0, err
 		}
@@ -182,7 +205,7 @@ func (c Conn) readMessage() (Message, error) {
 	switch protocol {
 	case ProtocolBulkString:
 		// $1
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -196,9 +219,13 @@ func (c Conn) readMessage() (Message, error) {
 			return NilMessage{}, nil
 		}
 
+		if length < 0 {
+			return nil, errors.New("invalid bulk string length " + string(bs))
+		}
+
 		// read data
-		var data = make([]byte, length)
-		if _, err := c.Reader.Read(data); err != nil {
+		var data bytes.Buffer
+		if _, err := io.CopyN(&data, c.Reader, int64(length)); err != nil {
 			return nil, err
 		}
 
@@ -206,25 +233,25 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
-		msg := NewBulkStringMessage(string(data))
+		msg := NewBulkStringMessage(data.String())
 
 		return msg, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 
 		return SimpleStringMessage(string(line)), nil
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 		return ErrorMessage(string(line)), nil
 
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -234,7 +261,7 @@ func (c Conn) readMessage() (Message, error) {
 			return IntMessage(number), nil
 		}
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -243,6 +270,14 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
+		if number == -1 {
+			return NilMessage{}, nil
+		}
+
+		if number < 0 {
+			return nil, errors.New("invalid array length " + string(line))
+		}
+
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
 			if message, err := c.readMessage(); err != nil {
-- 
2.43.0


From 6b9360898254f2ad00d74bf4e2f486853783d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 02/22] fix: send the command each client method names and
 return the server's answer

---
 redis/command.go | 10 ++++++++++
 redis/redis.go   |  8 ++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/redis/command.go b/redis/command.go
index 7346c68..cff43ce 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -55,6 +55,8 @@ type FloatCommand struct {
 
 func (cmd *FloatCommand) Parse(message Message) {
 	if val, err := strconv.ParseFloat(message.String(), 64); err != nil {
+		cmd.Err = err
+	} else {
 		cmd.Val = val
 	}
 }
@@ -71,6 +73,8 @@ type IntCommand struct {
 func (i *IntCommand) Parse(message Message) {
 	if message, ok := message.(IntMessage); ok {
 		i.Val = int(message)
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
 
@@ -108,11 +112,15 @@ func (cmd *OKCommand) Parse(message Message) {
 	m, ok := message.(SimpleStringMessage)
 	if !ok {
 		cmd.Err = errors.New("failed parse redis data")
+		return
 	}
 
 	if m.String() != "OK" {
 		cmd.Err = errors.New(m.String())
+		return
 	}
+
+	cmd.Val = m.String()
 }
 
 func (cmd *OKCommand) Result() (string, error) {
@@ -135,5 +143,7 @@ func (i *InterfaceArrayCommand) Parse(message Message) {
 				i.Val = append(i.Val, m.String())
 			}
 		}
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
diff --git a/redis/redis.go b/redis/redis.go
index 4d99e21..2a19c72 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -91,7 +91,7 @@ func (redis *Redis) Select(index int) (string, error) {
 }
 
 func (redis *Redis) SetNX(key, value string) (string, error) {
-	rc := OKCommand{
+	rc := StringCommand{
 		BaseCommand: NewBaseCommand("SetNX", key, value),
 	}
 	redis.process(&rc)
@@ -100,7 +100,7 @@ func (redis *Redis) SetNX(key, value string) (string, error) {
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expires, 10)),
+		BaseCommand: NewBaseCommand("SetEX", key, strconv.FormatUint(expires, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -108,7 +108,7 @@ func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 
 func (redis *Redis) PSetEX(key, value string, expiresMs uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expiresMs, 10)),
+		BaseCommand: NewBaseCommand("PSetEX", key, strconv.FormatUint(expiresMs, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -175,7 +175,7 @@ func (redis *Redis) Incr(key string) (int, error) {
 
 func (redis *Redis) IncrBy(key string, increment int) (int, error) {
 	rc := IntCommand{
-		BaseCommand: NewBaseCommand("Incr", key, strconv.Itoa(increment)),
+		BaseCommand: NewBaseCommand("IncrBy", key, strconv.Itoa(increment)),
 	}
 	redis.process(&rc)
 
-- 
2.43.0


From 738f1293e6bc232f3e2011ed1b7ca0c67dfe771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 03/22] fix: pool replaces broken connections, survives failed
 dials and closes

---
 redis/conn.go | 16 +++++++++---
 redis/pool.go | 67 +++++++++++++++++++++++++++++++++++++--------------
 2 files changed, 62 insertions(+), 21 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index c8470b2..7b84c8c 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -19,6 +19,7 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
+	broken       bool // sending or receiving has failed
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -34,17 +35,26 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
-	return c.readMessage()
+	message, err := c.readMessage()
+	if err != nil {
+		c.broken = true
+	}
+
+	return message, err
 }
 
 func (c *Conn) Send(message Message) error {
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
+	if err == nil {
+		err = c.Writer.Flush()
+	}
+
 	if err != nil {
-		return err
+		c.broken = true
 	}
 
-	return c.Writer.Flush()
+	return err
 }
 
 func (c *Conn) SendAndWaitReply(message Message) (Message, error) {
diff --git a/redis/pool.go b/redis/pool.go
index 13943ca..a37ef61 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -36,17 +36,14 @@ func (pool *Pool) Init(capacity int, addr string) {
 func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	select {
 	case c := <-pool.connC:
-		return c, nil
+		return pool.open(c)
 	default:
 		// no conn available, try create new conn
 		pool.l.Lock()
 		if pool.size < pool.capacity {
-			conn, err := pool.create()
-			if err != nil {
-				return nil, err
-			}
 			pool.size++
-			pool.connC <- conn
+			pool.l.Unlock()
+			return pool.open(nil)
 		}
 		pool.l.Unlock()
 	}
@@ -55,45 +52,79 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	case <-ctx.Done():
 		return nil, errors.New("no connection available")
 	case c := <-pool.connC:
-		return c, nil
+		return pool.open(c)
+	}
+}
+
+// connC holds the idle connections, a nil one stands for a place to be filled by a new conn
+func (pool *Pool) open(conn *Conn) (*Conn, error) {
+	if conn != nil {
+		return conn, nil
 	}
+
+	conn, err := pool.create()
+	if err != nil {
+		pool.connC <- nil
+		return nil, err
+	}
+
+	return conn, nil
 }
 
-func (pool Pool) create() (conn *Conn, err error) {
+func (pool *Pool) create() (conn *Conn, err error) {
 	if conn, err = Connect(pool.addr); err != nil {
 		return conn, err
 	}
 
 	for _, handler := range pool.connOpenHandler {
 		if err := handler(conn); err != nil {
-			return conn, err
+			_ = conn.Close()
+			return nil, err
 		}
 	}
 
 	return conn, err
 }
 
-func (pool Pool) Put(conn *Conn) {
+func (pool *Pool) Put(conn *Conn) {
 	if conn != nil {
+		// the stream of a broken conn is out of step, it must not be used again
+		if conn.broken {
+			_ = conn.Close()
+			conn = nil
+		}
 		pool.connC <- conn
 	}
 }
 
 //Close close all conn opened in the pool
-func (pool Pool) Close() error {
-	for conn := range pool.connC {
+func (pool *Pool) Close() (err error) {
+	for {
+		var conn *Conn
+		select {
+		case conn = <-pool.connC:
+		default:
+			return err
+		}
+
+		pool.l.Lock()
+		pool.size--
+		pool.l.Unlock()
+
+		if conn == nil {
+			continue
+		}
+
 		for _, handler := range pool.connCloseHandler {
-			if err := handler(conn); err != nil {
-				return err
+			if e := handler(conn); e != nil && err == nil {
+				err = e
 			}
 		}
 
-		if err := conn.Close(); err != nil {
-			return err
+		if e := conn.Close(); e != nil && err == nil {
+			err = e
 		}
 	}
-
-	return nil
 }
 
 func (pool *Pool) ExecCommand(ctx context.Context, command Command) {
-- 
2.43.0


From 79b3da8a70a9717d379dfeca70733e04966065f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 04/22] fix: apply the configured connect, read and write
 timeouts

---
 redis/conn.go  | 15 ++++++++++++++-
 redis/pool.go  | 10 +++++++++-
 redis/redis.go |  3 +++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 7b84c8c..6d4f33d 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -35,6 +35,10 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
+	if c.ReadTimeout > 0 {
+		_ = c.conn.SetReadDeadline(time.Now().Add(c.ReadTimeout))
+	}
+
 	message, err := c.readMessage()
 	if err != nil {
 		c.broken = true
@@ -44,6 +48,10 @@ func (c *Conn) Recv() (Message, error) {
 }
 
 func (c *Conn) Send(message Message) error {
+	if c.WriteTimeout > 0 {
+		_ = c.conn.SetWriteDeadline(time.Now().Add(c.WriteTimeout))
+	}
+
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
 	if err == nil {
@@ -312,7 +320,12 @@ func NewConn(conn net.Conn) *Conn {
 }
 
 func Connect(address string) (*Conn, error) {
-	conn, err := net.Dial("tcp", address)
+	return ConnectTimeout(address, 0)
+}
+
+// ConnectTimeout waits no longer than timeout for the connection, 0 means no limit
+func ConnectTimeout(address string, timeout time.Duration) (*Conn, error) {
+	conn, err := net.DialTimeout("tcp", address, timeout)
 
 	if err != nil {
 		return nil, err
diff --git a/redis/pool.go b/redis/pool.go
index a37ef61..d75d13e 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"sync"
+	"time"
 )
 
 const defaultPoolCapacity = 20
@@ -13,6 +14,9 @@ type Pool struct {
 	size             int // current size
 	connC            chan *Conn
 	addr             string
+	timeout          time.Duration
+	readTimeout      time.Duration
+	writeTimeout     time.Duration
 	connOpenHandler  []func(conn *Conn) error
 	connCloseHandler []func(conn *Conn) error
 	l                sync.Mutex
@@ -72,10 +76,14 @@ func (pool *Pool) open(conn *Conn) (*Conn, error) {
 }
 
 func (pool *Pool) create() (conn *Conn, err error) {
-	if conn, err = Connect(pool.addr); err != nil {
+	if conn, err = ConnectTimeout(pool.addr, pool.timeout); err != nil {
 		return conn, err
 	}
 
+	conn.WithTimeout(pool.timeout)
+	conn.WithReadTimeout(pool.readTimeout)
+	conn.WithWriteTimeout(pool.writeTimeout)
+
 	for _, handler := range pool.connOpenHandler {
 		if err := handler(conn); err != nil {
 			_ = conn.Close()
diff --git a/redis/redis.go b/redis/redis.go
index 2a19c72..34b1316 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -33,6 +33,9 @@ func NewClient(option Option) *Redis {
 	redis := new(Redis)
 
 	redis.connPool.Init(option.PoolSize, option.Addr)
+	redis.connPool.timeout = option.Timeout
+	redis.connPool.readTimeout = option.ReadTimeout
+	redis.connPool.writeTimeout = option.WriteTimeout
 
 	if option.Password != "" {
 		redis.connPool.AddConnOpenHandler(func(conn *Conn) error {
-- 
2.43.0


From e8636d6ea15a17114d7ac23044df4d3c22b593c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 05/22] fix: decode all snapshot lengths, integers and nested
 encodings as Redis writes them

---
 redis/intset/intset.go   |  4 +--
 redis/rdb/rdb.go         | 66 +++++++++++++++++++++++-----------------
 redis/ziplist/ziplist.go | 22 +++++++++++---
 redis/zipmap/zipmap.go   |  2 +-
 4 files changed, 59 insertions(+), 35 deletions(-)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index cbcbc88..16c3846 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -24,7 +24,7 @@ func Load(encoded string) (set []int64) {
 			start := 8 + 2*i
 			end := 8 + 2*(i+1)
 
-			num := binary.LittleEndian.Uint16([]byte(encoded[start:end]))
+			num := int16(binary.LittleEndian.Uint16([]byte(encoded[start:end])))
 			set = append(set, int64(num))
 		}
 	case EncInt32:
@@ -32,7 +32,7 @@ func Load(encoded string) (set []int64) {
 			start := 8 + 4*i
 			end := 8 + 4*(i+1)
 
-			num := binary.LittleEndian.Uint32([]byte(encoded[start:end]))
+			num := int32(binary.LittleEndian.Uint32([]byte(encoded[start:end])))
 			set = append(set, int64(num))
 		}
 	case EncInt64:
diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 8ef7a55..4f39313 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -9,7 +9,7 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
-	"log"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -57,8 +57,6 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 			//l := (buf[0] & 0x3F << 8) | buf[1]
 			num := binary.BigEndian.Uint16([]byte{buf[0] & 0x3F, buf[1]})
 			length = uint64(num)
-		} else {
-			panic("failed to load BitLen14")
 		}
 	default:
 		// compare first byte
@@ -66,21 +64,15 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 		case BitLen32:
 			logrus.Infoln("BitLen32")
 			buf = make([]byte, 4)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 4 {
-				var lengthUint32 uint32
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, lengthUint32)
-				length = uint64(lengthUint32)
-			} else if n != 4 {
-				err = errors.New("failed to read 4 byte for BitLen32")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = uint64(binary.BigEndian.Uint32(buf))
 			}
 		case BitLen64:
 			logrus.Infoln("BitLen64")
 
 			buf = make([]byte, 8)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 8 {
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, length)
-			} else if n != 8 {
-				err = errors.New("failed to read 8 byte for BitLen64")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = binary.BigEndian.Uint64(buf)
 			}
 		default:
 			err = errors.New(fmt.Sprintf("Unknown length encoding %d in rdbLoadLen(), %d, %d", buf[0], BitLen32, BitLen64))
@@ -119,17 +111,17 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, errors.New("failed to read 2 bytes for EncInt16")
 			}
 
-			num := binary.LittleEndian.Uint16(buf)
+			num := int16(binary.LittleEndian.Uint16(buf))
 			str = fmt.Sprintf("%d", num)
 		case EncInt32:
 			// 4 byte
 			var buf = make([]byte, 4)
 			if n, err := io.ReadFull(reader, buf); err != nil {
-				log.Fatal(err)
+				return str, err
 			} else if n != 4 {
 				return str, errors.New("failed to read 4 bytes for EncInt32")
 			}
-			num := binary.LittleEndian.Uint32(buf)
+			num := int32(binary.LittleEndian.Uint32(buf))
 			//buf[0] | (buf[1] << 8) | (buf[2] << 16 | buf[3] << 24)
 			str = fmt.Sprintf("%d", num)
 		case EncLzf:
@@ -146,14 +138,20 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, err
 			}
 
-			var c = make([]byte, n)
-			if n, err := io.ReadFull(reader, c); err != nil {
+			c, err := readFull(reader, n)
+			if err != nil {
 				return str, err
-			} else if n != len(c) {
-				return str, errors.New(fmt.Sprintf("failed to read [%d] bytes for LoadString EncLzf", len(c)))
+			}
+
+			// lzf never expands more than 264 bytes from 3
+			if n == 0 || length == 0 || length/n > 264 {
+				return str, errors.New(fmt.Sprintf("failed to decompress [%d] bytes to [%d]", n, length))
 			}
 
 			str = lzf.DeCompress(string(c), int(length))
+			if uint64(len(str)) != length {
+				return str, errors.New(fmt.Sprintf("failed to decompress [%d] bytes to [%d]", n, length))
+			}
 		default:
 			err = errors.New("failed decode string")
 		}
@@ -162,8 +160,8 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 		return str, err
 	}
 
-	buf := make([]byte, length)
-	if _, err := reader.Read(buf); err != nil {
+	buf, err := readFull(reader, length)
+	if err != nil {
 		return str, err
 	}
 	str = string(buf)
@@ -171,15 +169,27 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 	return str, err
 }
 
+// readFull reads exactly length bytes, memory is used as they arrive
+func readFull(reader *bufio.Reader, length uint64) ([]byte, error) {
+	if length > math.MaxInt64 {
+		return nil, errors.New(fmt.Sprintf("invalid length [%d]", length))
+	}
+
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, reader, int64(length)); err != nil {
+		return nil, err
+	}
+
+	return buf.Bytes(), nil
+}
+
 //R_Zero = 0.0;
 //R_PosInf = 1.0/R_Zero;
 //RNegInf = -1.0/R_Zero;
 //RNan = R_Zero/R_Zero;
-// todo
-const RZero = float64(1.0)
-const RPosInf = 1.0 / RZero
-const RNegInf = -1.0 / RZero
-const RNan = RZero / RZero
+var RPosInf = math.Inf(1)
+var RNegInf = math.Inf(-1)
+var RNan = math.NaN()
 
 func LoadDouble(reader *bufio.Reader) (f float64, err error) {
 	var length byte
@@ -215,7 +225,7 @@ func LoadBinaryDouble(reader *bufio.Reader) (f float64, err error) {
 		return f, errors.New(fmt.Sprintf("failed to load [%d] bytes for LoadBinaryDouble", int(length)))
 	}
 
-	err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, f)
+	f = math.Float64frombits(binary.LittleEndian.Uint64(buf))
 	return f, err
 }
 
diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index efe70e9..935757b 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -93,11 +93,11 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipStr14b:
 			size = 2
 			//(len) = (((ptr)[0] & 0x3f) << 8) | (ptr)[1];
-			length = uint32((iterator.val[iterator.pos]&0x3f)<<8 | iterator.val[iterator.pos+1])
+			length = uint32(iterator.val[iterator.pos]&0x3f)<<8 | uint32(iterator.val[iterator.pos+1])
 		case ZipStr32b:
 			size = 5
 			pos := iterator.pos
-			length = uint32(iterator.val[pos+1]<<24 | iterator.val[pos+2]<<16 | iterator.val[pos+3]<<8 | iterator.val[pos+4])
+			length = binary.BigEndian.Uint32([]byte(iterator.val[pos+1 : pos+5]))
 		default:
 			panic("failed to decode zip list item")
 		}
@@ -113,7 +113,7 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipInt32b:
 			length = 4
 		case ZipInt64b:
-			length = 5
+			length = 8
 		default:
 			if encoding >= ZipIntImmMin && encoding <= ZipIntImmMax {
 				val := (encoding & ZipIntImmMask) - 1
@@ -125,12 +125,26 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 	}
 
 	if length > 0 {
-		str = iterator.val[iterator.pos+1 : iterator.pos+int(length)+1]
+		start := iterator.pos + int(size)
+		str = iterator.val[start : start+int(length)]
+		if encoding >= ZipStrMask {
+			str = strconv.FormatInt(decodeInt(str), 10)
+		}
 	}
 
 	return length, size, str
 }
 
+// little endian signed integer of 1 to 8 bytes
+func decodeInt(data string) (val int64) {
+	for i := len(data) - 1; i >= 0; i-- {
+		val = val<<8 | int64(data[i])
+	}
+
+	shift := uint(64 - 8*len(data))
+	return val << shift >> shift
+}
+
 const ZipIntImmMin = 0xf1
 const ZipIntImmMax = 0xfd
 const ZipIntImmMask = 0x0f
diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index fcee6f9..fa80231 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -159,7 +159,7 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; i++ {
+	for i := 1; i < len(encoded)-1; {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
-- 
2.43.0


From dbd9aaa565b72b79671ab0cb9236fdb70ce1679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 06/22] fix: snapshot loading emits the commands that recreate
 the data and reports damage

---
 redis/replication.go | 46 +++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 57142f0..43c02e0 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -177,12 +177,23 @@ func (repl *Replication) Load() (err error) {
 	if file, err = os.OpenFile(repl.RdbFile, os.O_RDONLY, os.ModePerm); err != nil {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
+	defer file.Close()
+
+	// the nested encodings are decoded without bounds checks, damaged ones panic
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.New(fmt.Sprintf("rdb file is damaged, %v", r))
+		}
+	}()
 
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
-	if _, err = buf.Read(version); err != nil {
+	if _, err = io.ReadFull(buf, version); err != nil {
 		return err
 	}
+	if !strings.HasPrefix(string(version), "REDIS") {
+		return errors.New("not a rdb file")
+	}
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
@@ -199,7 +210,7 @@ func (repl *Replication) Load() (err error) {
 			if _, err = io.ReadFull(buf, expireS); err != nil {
 				return err
 			}
-			expiresTime = uint64(binary.LittleEndian.Uint32(expireS) * 1000)
+			expiresTime = uint64(binary.LittleEndian.Uint32(expireS)) * 1000
 		case rdb.OpCodeExpireTimeMs:
 			var milliTime = make([]byte, 8)
 			if _, err = io.ReadFull(buf, milliTime); err != nil {
@@ -287,9 +298,6 @@ func (repl *Replication) Load() (err error) {
 			if key, err = rdb.LoadString(buf); err != nil {
 				logrus.Warnln("failed to load key", err)
 				return err
-			} else if key == "" {
-				logrus.Warnln("failed to load key, key is empty", err)
-				return errors.New("empty key")
 			}
 
 			// opCode is object type
@@ -315,7 +323,7 @@ func (repl *Replication) Load() (err error) {
 				}
 
 				var value string
-				var args = []string{"lPush", key}
+				var args = []string{"rPush", key}
 				for ; length > 0; length-- {
 					if value, err = rdb.LoadString(buf); err != nil {
 						logrus.Warnln("failed to load TypeList value", err)
@@ -369,7 +377,6 @@ func (repl *Replication) Load() (err error) {
 						logrus.Warnln("failed to load TypeZSet, TypeZSet2 value", err)
 						return err
 					}
-					args = append(args, value)
 					if opCode == rdb.TypeZSet2 {
 						if score, err = rdb.LoadBinaryDouble(buf); err != nil {
 							logrus.Warnln("failed to load TypeZSet, TypeZSet2 value TypeZSet2", err)
@@ -382,7 +389,7 @@ func (repl *Replication) Load() (err error) {
 						}
 					}
 
-					args = append(args, strconv.FormatFloat(score, 'f', -1, 64))
+					args = append(args, strconv.FormatFloat(score, 'f', -1, 64), value)
 				}
 
 				cmd := NewBaseCommand(args...)
@@ -398,7 +405,7 @@ func (repl *Replication) Load() (err error) {
 					return err
 				}
 
-				var args = []string{"zAdd", key}
+				var args = []string{"hmSet", key}
 				var field, value string
 				for ; length > 0; length-- {
 					if field, err = rdb.LoadString(buf); err != nil {
@@ -480,7 +487,7 @@ func (repl *Replication) Load() (err error) {
 					var args = []string{"zAdd", key}
 					list := ziplist.Load(str)
 					for i := 0; i < len(list)/2; i++ {
-						args = append(args, list[2*i], list[2*i+1])
+						args = append(args, list[2*i+1], list[2*i])
 					}
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
@@ -510,24 +517,15 @@ func (repl *Replication) Load() (err error) {
 					}
 				}
 			case rdb.TypeStreamListPacks:
-				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
-					return err
-				}
-
-				for ; length > 0; length-- {
-					//if value, Err = rdb.LoadString(buf); Err != nil {
-					//	return Err
-					//}
-					//logrus.Infoln("TypeListQuickList", key, value)
-				}
-				err = errors.New("TypeStreamListPacks unsupported now")
+				return errors.New("TypeStreamListPacks unsupported now")
 			case rdb.TypeModule, rdb.TypeModule2:
-				err = errors.New("TypeModule TypeModule2 unsupported now")
+				return errors.New("TypeModule TypeModule2 unsupported now")
+			default:
+				return errors.New(fmt.Sprintf("unknown type %d", opCode))
 			}
 
 			if expiresTime > 0 {
-				args := []string{"pExpire", key, strconv.Itoa(int(expiresTime))}
+				args := []string{"pExpireAt", key, strconv.Itoa(int(expiresTime))}
 				cmd := NewBaseCommand(args...)
 				repl.Messages <- ReplicationMessage{
 					Database: repl.database,
-- 
2.43.0


From b184ea6755005240f0d34de50229231e9705a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 07/22] fix: a snapshot transfer that fails is reported

---
 redis/conn.go        | 10 +++++++++-
 redis/replication.go |  6 +++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 6d4f33d..5749437 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -145,6 +145,10 @@ func (c Conn) readLine() ([]byte, error) {
 // save message content to io reader
 func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	protocol, err := c.readProtocol()
+	// a master sends empty lines to keep the connection alive while it prepares the snapshot
+	for err == nil && protocol == '\n' {
+		protocol, err = c.readProtocol()
+	}
 	if err != nil {
 		return protocol, 0, err
 	}
@@ -168,6 +172,10 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 			return ProtocolBulkString, 0, err
 		}
 
+		if length < 0 {
+			return ProtocolBulkString, 0, errors.New("invalid bulk string length " + string(bs))
+		}
+
 		for i := 0; i < length; i++ {
 			b, err := c.Reader.ReadByte()
 			if err != nil {
@@ -178,7 +186,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 			}
 		}
 
-		return ProtocolBulkString, length, nil
+		return ProtocolBulkString, length, buf.Flush()
 	case ProtocolSimpleString:
 		line, err := c.readLine()
 		if err != nil {
diff --git a/redis/replication.go b/redis/replication.go
index 43c02e0..7601bde 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -145,13 +145,17 @@ func (repl *Replication) sync() (err error) {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
 
+	defer fp.Close()
+
 	if protocol, length, err := repl.conn.ReadWithWriter(fp); err != nil {
 		return errors.New("failed to save rdb file," + err.Error())
+	} else if protocol != ProtocolBulkString {
+		return errors.New("master refused to sync")
 	} else {
 		logrus.Infoln("redis rdb file", protocol, length, repl.RdbFile)
 	}
 
-	return err
+	return fp.Close()
 }
 
 //psync from redis master
-- 
2.43.0


From 49bbce543dcc7b5b713544e13cb0512d6d303fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:08 +0000
Subject: [PATCH 08/22] fix: replication stream tracks database and offset and
 ends cleanly

---
 redis/replication.go | 50 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 7601bde..ebc2ca7 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -38,7 +38,19 @@ type Replication struct {
 
 const DefaultReplicationMessages = 10000
 
+// Stop closes the connection to the master, WaitForMessage and Ack end
 func (repl *Replication) Stop() {
+	if repl.conn != nil {
+		_ = repl.conn.Close()
+	}
+}
+
+// report tells about an error without waiting for somebody to take it
+func (repl *Replication) report(err error) {
+	select {
+	case repl.Err <- err:
+	default:
+	}
 }
 
 func (repl *Replication) SyncWithRedis() error {
@@ -62,11 +74,13 @@ func (repl *Replication) SyncWithRedis() error {
 
 	if err := repl.ping(); err != nil {
 		logrus.Warn("replication error", err)
+		repl.Stop()
 		return err
 	}
 
 	if err := repl.sync(); err != nil {
 		logrus.Warnln("replication error", err)
+		repl.Stop()
 		return err
 	}
 
@@ -74,21 +88,35 @@ func (repl *Replication) SyncWithRedis() error {
 }
 
 func (repl *Replication) WaitForMessage() {
+	database := 0
 	for {
 		message, err := repl.conn.Recv()
 		if err != nil {
-			repl.Err <- err
+			repl.report(err)
 			close(repl.Messages)
+			repl.Stop()
 			return
 		}
 
-		if strings.HasPrefix(strings.ToLower(message.String()), "ping") {
+		repl.Lock()
+		repl.Offset += len(message.Serialize())
+		repl.Unlock()
+
+		if strings.ToLower(message.String()) == "ping" {
 			repl.lastPing = time.Now()
 			continue
 		}
 
+		// the commands that follow apply to the selected database
+		if args, ok := message.(ArrayMessage); ok && len(args) == 2 && strings.ToLower(args[0].String()) == "select" {
+			if index, err := strconv.Atoi(args[1].String()); err == nil {
+				database = index
+			}
+			continue
+		}
+
 		repl.Messages <- ReplicationMessage{
-			Database: 0,
+			Database: database,
 			Message:  message,
 			Offset:   0,
 		}
@@ -96,11 +124,15 @@ func (repl *Replication) WaitForMessage() {
 }
 
 func (repl *Replication) ack() error {
+	repl.Lock()
+	offset := repl.Offset
+	repl.Unlock()
+
 	cmd := StringCommand{
-		BaseCommand: NewBaseCommand("ReplConf", "ack", strconv.Itoa(repl.Offset)),
+		BaseCommand: NewBaseCommand("ReplConf", "ack", strconv.Itoa(offset)),
 	}
 
-	logrus.Debugln("ack", strconv.Itoa(repl.Offset))
+	logrus.Debugln("ack", strconv.Itoa(offset))
 	if err := repl.conn.Send(cmd.Serialize()); err != nil {
 		err = errors.New("failed send ack to master," + err.Error())
 		return err
@@ -110,9 +142,13 @@ func (repl *Replication) ack() error {
 }
 
 func (repl *Replication) Ack() {
-	for range time.NewTicker(time.Second).C {
+	ticker := time.NewTicker(time.Second)
+	defer ticker.Stop()
+
+	for range ticker.C {
 		if err := repl.ack(); err != nil {
-			repl.Err <- err
+			repl.report(err)
+			return
 		}
 	}
 }
-- 
2.43.0


From da0c2e86b2c77b067b1353072a3c8ddc1ab323f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:08 +0000
Subject: [PATCH 09/22] fix: a silent master does not block replication forever

---
 redis/conn.go        | 15 ++++++++++++---
 redis/replication.go |  7 ++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 5749437..185089a 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -35,9 +35,7 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
-	if c.ReadTimeout > 0 {
-		_ = c.conn.SetReadDeadline(time.Now().Add(c.ReadTimeout))
-	}
+	c.extendReadDeadline()
 
 	message, err := c.readMessage()
 	if err != nil {
@@ -92,6 +90,12 @@ func (c *Conn) Close() error {
 	return c.conn.Close()
 }
 
+func (c Conn) extendReadDeadline() {
+	if c.ReadTimeout > 0 {
+		_ = c.conn.SetReadDeadline(time.Now().Add(c.ReadTimeout))
+	}
+}
+
 // Protocol length
 func (c Conn) readProtocol() (Protocol, error) {
 	var p byte
@@ -144,9 +148,11 @@ func (c Conn) readLine() ([]byte, error) {
 
 // save message content to io reader
 func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
+	c.extendReadDeadline()
 	protocol, err := c.readProtocol()
 	// a master sends empty lines to keep the connection alive while it prepares the snapshot
 	for err == nil && protocol == '\n' {
+		c.extendReadDeadline()
 		protocol, err = c.readProtocol()
 	}
 	if err != nil {
@@ -177,6 +183,9 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 		}
 
 		for i := 0; i < length; i++ {
+			if c.Reader.Buffered() == 0 {
+				c.extendReadDeadline()
+			}
 			b, err := c.Reader.ReadByte()
 			if err != nil {
 				return ProtocolBulkString, 0, err
diff --git a/redis/replication.go b/redis/replication.go
index ebc2ca7..f4f016d 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -38,6 +38,9 @@ type Replication struct {
 
 const DefaultReplicationMessages = 10000
 
+// ReplicationTimeout is how long the master may be silent, as repl-timeout of redis
+const ReplicationTimeout = 60 * time.Second
+
 // Stop closes the connection to the master, WaitForMessage and Ack end
 func (repl *Replication) Stop() {
 	if repl.conn != nil {
@@ -65,10 +68,12 @@ func (repl *Replication) SyncWithRedis() error {
 		return errors.New("redis master addr is required")
 	}
 
-	if conn, err := Connect(repl.MasterAddr); err != nil {
+	if conn, err := ConnectTimeout(repl.MasterAddr, ReplicationTimeout); err != nil {
 		err = errors.New("failed to connect to master," + err.Error())
 		return err
 	} else {
+		conn.WithReadTimeout(ReplicationTimeout)
+		conn.WithWriteTimeout(ReplicationTimeout)
 		repl.conn = conn
 	}
 
-- 
2.43.0


From 33177bff6abcbcf5b5675cc77f03ecd470c2dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 10/22] fix: string values keep their text, float increments
 accept every number

Values such as 007, 1e3 or 1.10 were rewritten when they were stored; a
float increment failed after an integer one and on text numbers; GETSET on
a hash destroyed it; SETRANGE with nothing to write created or padded keys.
---
 cache/cachestring.go | 62 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index ce49c68..6422646 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"math"
 	"strconv"
 	"time"
 )
@@ -14,10 +15,11 @@ func (c *Cache) Set(key, value string) (string, error) {
 }
 
 func tryInt64(value string) interface{} {
-	if n, err := strconv.Atoi(value); err == nil {
+	// a number is kept only if it formats to the same text again
+	if n, err := strconv.Atoi(value); err == nil && strconv.Itoa(n) == value {
 		// try convert string value to int
 		return n
-	} else if f, err := strconv.ParseFloat(value, 64); err == nil {
+	} else if f, err := parseFloat(value); err == nil && formatFloat(f) == value {
 		// try float
 		return f
 	}
@@ -25,6 +27,20 @@ func tryInt64(value string) interface{} {
 	return value
 }
 
+// finite decimal number
+func parseFloat(value string) (float64, error) {
+	f, err := strconv.ParseFloat(value, 64)
+	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
+		return 0, ErrWrongType
+	}
+
+	return f, nil
+}
+
+func formatFloat(f float64) string {
+	return strconv.FormatFloat(f, 'f', -1, 64)
+}
+
 // SET if Not eXists
 func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
@@ -102,14 +118,18 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	old, ok := c.get(key)
-
-	c.dataDict.Store(key, tryInt64(value))
-
-	if !ok{
+	if !ok {
+		c.dataDict.Store(key, tryInt64(value))
 		return "", ErrKeyNil
 	}
 
-	return fmtString(old)
+	str, err := fmtString(old)
+	if err != nil {
+		return "", err
+	}
+
+	c.dataDict.Store(key, tryInt64(value))
+	return str, nil
 }
 
 func (c *Cache) StrLen(key string) (int, error) {
@@ -159,6 +179,10 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	// key is not exist or expired
 	old, ok := c.dataDict.Load(key)
 	if !ok || c.expired(key) {
+		if replace == "" {
+			return 0, nil
+		}
+
 		str := make([]byte, pos)
 		for i := 0; i < pos; i++ {
 			str[i] = '\x00'
@@ -174,6 +198,11 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	// nothing to write, do not pad
+	if replace == "" {
+		return len(oldStr), nil
+	}
+
 	str := []byte(oldStr)
 	for i := len(str); i < pos; i++{
 		str = append(str, '\x00')
@@ -275,7 +304,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.dataDict.LoadOrStore(key, tryInt64(formatFloat(increment)))
 	if !ok {
 		return increment, nil
 	}
@@ -283,11 +312,24 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	switch val := actual.(type) {
 	case float64:
 		val += increment
-		c.dataDict.Store(key, val)
+		c.dataDict.Store(key, tryInt64(formatFloat(val)))
 		return val, nil
 	case int:
 		f := float64(val) + increment
-		c.dataDict.Store(key, f)
+		c.dataDict.Store(key, tryInt64(formatFloat(f)))
+		return f, nil
+	case int64:
+		f := float64(val) + increment
+		c.dataDict.Store(key, tryInt64(formatFloat(f)))
+		return f, nil
+	case string:
+		f, err := parseFloat(val)
+		if err != nil {
+			return 0, err
+		}
+
+		f += increment
+		c.dataDict.Store(key, tryInt64(formatFloat(f)))
 		return f, nil
 	default:
 		return 0, ErrWrongType
-- 
2.43.0


From ebe85e34c62d963606d20dedb1e064225922fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 11/22] fix: every command honours deadlines, plain writes
 remove them

SETNX, INCRBY and INCRBYFLOAT worked on expired values, SET and GETSET kept
an old deadline, a read racing with the removal of an expired key returned
its value, and the background sweep looked at the data instead of the
deadlines and so deleted every key.
---
 cache/cachecron.go   |  3 ++-
 cache/cachedb.go     |  2 +-
 cache/cachestring.go | 18 ++++++++++++++----
 cache/cacheutil.go   | 12 +++++-------
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/cache/cachecron.go b/cache/cachecron.go
index e9aaa43..e330032 100644
--- a/cache/cachecron.go
+++ b/cache/cachecron.go
@@ -6,10 +6,11 @@ import "time"
 func (c *Cache) cronExpire(duration time.Duration) {
 	for range time.NewTicker(duration).C{
 		c.lock.Lock()
-		c.dataDict.Range(func(key interface{}, value interface{}) bool {
+		c.expiresDict.Range(func(key interface{}, value interface{}) bool {
 			expire, ok := value.(time.Time)
 			if !ok{
 				c.expiresDict.Delete(key)
+				return true
 			}
 
 			if expire.Before(time.Now()){
diff --git a/cache/cachedb.go b/cache/cachedb.go
index b675204..fbacfaa 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -23,7 +23,7 @@ func (c *Cache) Flush() {
 
 func (c *Cache) Exists(keys ...string) (n int){
 	for _, key := range keys{
-		if _, ok := c.dataDict.Load(key); ok{
+		if _, ok := c.get(key); ok{
 			n++
 		}
 	}
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 6422646..6469bed 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -11,6 +11,8 @@ func (c *Cache) Set(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
+
 	return OK, nil
 }
 
@@ -46,6 +48,8 @@ func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
+
 	if _, loaded := c.dataDict.LoadOrStore(key, tryInt64(value)); loaded {
 		return 0, nil
 	} else {
@@ -129,6 +133,8 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	}
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
+
 	return str, nil
 }
 
@@ -136,8 +142,8 @@ func (c *Cache) StrLen(key string) (int, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	val, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	val, ok := c.get(key)
+	if !ok {
 		return 0, nil
 	}
 
@@ -225,8 +231,8 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	old, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	old, ok := c.get(key)
+	if !ok {
 		return "", nil
 	}
 	oldStr, err := fmtString(old)
@@ -268,6 +274,8 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 }
 
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
+	c.expired(key)
+
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return int(increment), nil
@@ -304,6 +312,8 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
+
 	actual, ok := c.dataDict.LoadOrStore(key, tryInt64(formatFloat(increment)))
 	if !ok {
 		return increment, nil
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index 78285c0..2c331d8 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -34,15 +34,13 @@ func (c *Cache) expires(key string, duration time.Duration) {
 }
 
 func (c *Cache) get(key string) (value interface{},ok bool){
-	val, ok := c.dataDict.Load(key)
-	if !ok{
-		return val, ok
-	}
-
+	// the deadline comes first: a concurrent reader that finds it passed
+	// deletes the value before it deletes the deadline
 	if c.expired(key) {
-		val = nil
-		ok = false
+		return nil, false
 	}
 
+	val, ok := c.dataDict.Load(key)
+
 	return val, ok
 }
\ No newline at end of file
-- 
2.43.0


From e05c67e4c8de6428e2f09994c93c2a2dc340e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 12/22] fix: multi-key commands, EXISTS and TYPE are atomic,
 TYPE knows hashes

They took no lock, MSETNX stored some of its keys when others existed.
---
 cache/cachedb.go     |  8 +++++++-
 cache/cachestring.go | 20 ++++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index fbacfaa..26b8550 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -22,6 +22,9 @@ func (c *Cache) Flush() {
 }
 
 func (c *Cache) Exists(keys ...string) (n int){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	for _, key := range keys{
 		if _, ok := c.get(key); ok{
 			n++
@@ -32,13 +35,16 @@ func (c *Cache) Exists(keys ...string) (n int){
 }
 
 func (c *Cache)Type(key string) string {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	v, ok := c.get(key)
 	if !ok{
 		return "none"
 	}
 
 	switch v.(type) {
-	case hashEntry:
+	case *hashEntry:
 		return "hash"
 	default:
 		return "string"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 6469bed..1f8c54e 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -362,22 +362,30 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 }
 
 func (c *Cache) MSet(kv map[string]string) (ok string) {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
+		c.expires(k, 0)
 	}
 
 	return OK
 }
 
 func (c *Cache) MSetNX(kv map[string]string) int {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	n := 0
 
+	// all or none
+	for k := range kv {
+		if _, ok := c.get(k); ok {
+			return 0
+		}
+	}
+
 	for k, v := range kv {
 		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
 			n++
@@ -388,8 +396,8 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 }
 
 func (c *Cache) MGet(keys ...string) []interface{} {
-	//c.lock.RLock()
-	//defer c.lock.RUnlock()
+	c.lock.RLock()
+	defer c.lock.RUnlock()
 
 	var values = make([]interface{}, len(keys))
 	for id, k := range keys {
-- 
2.43.0


From 865c8a17688ff1739694a7ffae94de3806be49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 13/22] fix: hash commands are atomic and store what they
 return

They took no lock; HEXISTS changed the length, HINCRBY and HINCRBYFLOAT
stored the increment instead of the sum, HKEYS, HVALS and HGETALL crashed
on absent keys or lost values, empty hashes stayed behind.
---
 cache/cachehash.go | 82 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 75 insertions(+), 7 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index b79a1ea..7e782c2 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -51,6 +51,9 @@ func (c *Cache) getHashEntry(key string) (*hashEntry, error) {
 }
 
 func (c *Cache) HSet(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -66,6 +69,9 @@ func (c *Cache) HSet(key string, field string, value string) (n int, err error)
 
 //HGET
 func (c *Cache) HSetNX(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -76,7 +82,7 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 		c.dataDict.Store(key, he)
 	}
 
-	if _, ok := he.LoadOrStore(field, value); !ok {
+	if _, ok := he.LoadOrStore(field, tryInt64(value)); !ok {
 		he.length++
 		n = 1
 	}
@@ -86,6 +92,9 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 
 //HEXISTS
 func (c *Cache) HExists(key string, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -99,13 +108,14 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 		n = 1
 	}
 
-	he.length -= n
-
 	return n, err
 }
 
 //HDEL
 func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -126,11 +136,20 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 		he.length -= n
 	}
 
+	// a hash without fields does not exist
+	if he.length == 0 {
+		c.dataDict.Delete(key)
+		c.expiresDict.Delete(key)
+	}
+
 	return n, nil
 }
 
 //HLEN
 func (c *Cache) HLen(key string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -145,6 +164,9 @@ func (c *Cache) HLen(key string) (n int, err error) {
 
 //HSTRLEN
 func (c *Cache) HStrLen(key, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil || he == nil {
 		return n, err
@@ -158,6 +180,9 @@ func (c *Cache) HStrLen(key, field string) (n int, err error) {
 }
 
 func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -196,7 +221,7 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 	}
 
 	if err == nil{
-		he.set(field, strconv.Itoa(increment))
+		he.set(field, strconv.Itoa(n))
 	}
 
 	return n, err
@@ -205,6 +230,9 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 var ErrHashValueIsNotFloat = errors.New("hash value is not a float")
 //HINCRBY
 func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return f, err
@@ -225,9 +253,13 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	case string:
 		if val == ""{
 			f = increment
+		}else if f, err = parseFloat(val); err == nil{
+			f += increment
 		}else{
 			err = ErrHashValueIsNotFloat
 		}
+	case float64:
+		f = val + increment
 	case int:
 		f = float64(val) + increment
 	case int32:
@@ -243,19 +275,27 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	}
 
 	if err == nil{
-		he.set(field, strconv.FormatFloat(increment, 'f', -1, 64))
+		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
 	}
 
 	return f, err
 }
 //HMSET
 func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
 	}
 
 	if he == nil{
+		// a hash without fields does not exist
+		if len(fv) == 0 {
+			return 0, nil
+		}
+
 		he = newHash()
 		c.dataDict.Store(key, he)
 	}
@@ -269,6 +309,9 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 
 //HMGET
 func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -293,11 +336,18 @@ func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
 
 //HKEYS
 func(c *Cache) HKeys(key string)(fields []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	 he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			fields = append(fields, field)
@@ -310,13 +360,20 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 
 //HVALS
 func(c *Cache) HVals(key string)(values []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
-		if field, ok := value.(string); ok{
+		if field, err := fmtString(value); err == nil{
 			values = append(values, field)
 		}
 		return true
@@ -327,14 +384,22 @@ func(c *Cache) HVals(key string)(values []string,err error){
 
 //HGETALL
 func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
 	}
 
+	kv = make(map[string]string)
+	if he == nil {
+		return kv, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
-			if v, err := fmtString(value); err != nil{
+			if v, err := fmtString(value); err == nil{
 				kv[field] = v
 			}
 		}
@@ -346,6 +411,9 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 }
 //HSCAN
 func (c *Cache) HGet(key string, field string) (value string, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return value, err
-- 
2.43.0


From 70158013b6920f1729212b6bb95e561dde355ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 14/22] fix: replicated commands the cache cannot apply drop
 the keys they change

HandleMessage crashed on lists and short commands, ignored SET options,
hashes, deletes and flushes, and so kept values the master had changed.
---
 cache/message.go | 50 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/cache/message.go b/cache/message.go
index d915d1f..3fd4996 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -18,25 +18,45 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 
 	switch strings.ToLower(messages[0].String()) {
 	case "set":
-		_, err = cache.Set(messages[1].String(), messages[2].String())
-	case "rpush":
-		if len(messages) < 2 {
-			return errors.New("rpush command args error")
-		}
-
-		var values []string
-		for i := 2; i < len(messages); i++ {
-			values = append(values, messages[i].String())
-		}
-		_, err = cache.RPush(messages[1].String(), values...)
-	case "hmset":
-		if len(messages) < 2 {
-			return errors.New("hmset command args error")
+		// options such as EX are not applied here
+		if len(messages) != 3 {
+			return forget(cache, messages)
 		}
 
+		_, err = cache.Set(messages[1].String(), messages[2].String())
+	case "ping", "multi", "exec", "replconf":
+		// these change no key
+	case "flushdb", "flushall", "swapdb", "eval", "evalsha", "fcall":
+		// any key may have changed
+		cache.Flush()
 	default:
-		return errors.New("unknown handled command," + message.Serialize())
+		return forget(cache, messages)
 	}
 
 	return err
 }
+
+// forget deletes every key that a command the cache cannot apply may have changed,
+// they are not known here any longer
+func forget(cache *Cache, messages redis.ArrayMessage) error {
+	for _, arg := range messages[1:] {
+		cache.Del(arg.String())
+	}
+
+	return errors.New("unknown handled command," + messages.Serialize())
+}
+
+// CrossDatabase reports if a command can change other databases than the selected one
+func CrossDatabase(message redis.Message) bool {
+	messages, ok := message.(redis.ArrayMessage)
+	if !ok || len(messages) == 0 {
+		return false
+	}
+
+	switch strings.ToLower(messages[0].String()) {
+	case "flushall", "swapdb", "move", "copy", "eval", "evalsha", "fcall":
+		return true
+	}
+
+	return false
+}
-- 
2.43.0


From 5d8c498c0fb9b92d63ff44fee3d9b480be6e26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 15/22] fix: the client reads through to redis and survives the
 end of replication

The cache had no storage and the first replicated command crashed it, a
command that could not be applied blocked replication for ever, keys the
cache does not hold were reported absent, a broken link left values that
were never updated again, and a failed creation left its connection and
goroutine behind.
---
 command.go |  7 ++++++-
 xxcache.go | 33 ++++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/command.go b/command.go
index b33bdcd..fdf125a 100644
--- a/command.go
+++ b/command.go
@@ -75,7 +75,12 @@ type HashCommand interface {
 }
 
 func (client Client) Get(key string) (string, error) {
-	return client.cache.Get(key)
+	if val, err := client.cache.Get(key); err == nil {
+		return val, nil
+	}
+
+	// not replicated here, ask redis
+	return client.redis.Get(key)
 }
 
 func (client Client) Set(key string, value string) (string, error) {
diff --git a/xxcache.go b/xxcache.go
index cd29f87..659a078 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -4,6 +4,7 @@ import (
 	"github.com/liujiangwei/xxcache/cache"
 	"github.com/liujiangwei/xxcache/redis"
 	"github.com/sirupsen/logrus"
+	"time"
 )
 
 type XXCache interface {
@@ -28,13 +29,16 @@ type Client struct {
 const redisMasterAddr = "127.0.0.1:6379"
 const redisRdbFile = "temp.rdb"
 
+// redisTimeout is how long a command sent to redis may take
+const redisTimeout = 5 * time.Second
+
 func New(option Option) (client Client, err error) {
 	client.option = option
 
-	client.cache = new(cache.Cache)
+	client.cache = cache.New()
 	prepareOption(&option)
 
-	repl := redis.Replication{
+	repl := &redis.Replication{
 		MasterAddr: option.RedisMasterAddr,
 		RdbFile:    option.RedisRdbFile,
 	}
@@ -48,6 +52,8 @@ func New(option Option) (client Client, err error) {
 	go client.handleReplication(repl)
 
 	if err = repl.Load(); err != nil {
+		repl.Stop()
+		close(repl.Messages)
 		return client, err
 	}
 
@@ -55,21 +61,34 @@ func New(option Option) (client Client, err error) {
 
 	go repl.WaitForMessage()
 
-	client.redis = redis.NewClient(redis.Option{Addr: option.RedisMasterAddr})
+	client.redis = redis.NewClient(redis.Option{
+		Addr:         option.RedisMasterAddr,
+		Database:     option.database,
+		Timeout:      redisTimeout,
+		ReadTimeout:  redisTimeout,
+		WriteTimeout: redisTimeout,
+	})
 
 	return client, err
 }
 
-func (client *Client) handleReplication(repl redis.Replication) {
+func (client *Client) handleReplication(repl *redis.Replication) {
 	for {
 		select {
-		case message := <-repl.Messages:
-			if message.Database != client.option.database {
+		case message, ok := <-repl.Messages:
+			if !ok {
+				// nothing keeps the cache up to date any longer, redis answers from now on
+				client.cache.Flush()
+				logrus.Warnln("repl stopped")
+				return
+			}
+
+			if message.Database != client.option.database && !cache.CrossDatabase(message.Message) {
 				continue
 			}
 
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
-				repl.Err <- err
+				logrus.Debugln("repl message", err)
 			}
 		case err := <-repl.Err:
 			if err != nil {
-- 
2.43.0


From 8e3d2756781a339e7d5afce63c5808165eba91ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:53 +0000
Subject: [PATCH 16/22] fix: increments that overflow or are not finite are
 errors and change nothing

---
 cache/cache.go       |  1 +
 cache/cachehash.go   | 59 +++++++++++++++++++------------
 cache/cachestring.go | 84 +++++++++++++++++++++++++++++---------------
 3 files changed, 93 insertions(+), 51 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index cf717fb..bf5510c 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -30,5 +30,6 @@ func (c *Cache) Cron() {
 var ErrKeyNil = errors.New("redis nil")
 var ErrWrongType = errors.New("wrong type,operation against a key holding the wrong kind of value")
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
+var ErrOverflow = errors.New("increment or decrement would overflow")
 
 var OK = "OK"
diff --git a/cache/cachehash.go b/cache/cachehash.go
index 7e782c2..95d1329 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -202,29 +202,36 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 	switch val := v.(type) {
 	case string:
 		if val == ""{
-			n = increment
+			n = 0
 		}else{
 			err = ErrHashValueIsNotFloat
 		}
 	case int:
-		n = val + increment
+		n = val
 	case int32:
-		n = int(val) + increment
+		n = int(val)
 	case int64:
-		n = int(val) + increment
+		n = int(val)
 	case uint32:
-		n = int(val) + increment
+		n = int(val)
 	case uint64:
-		n = int(val) + increment
+		n = int(val)
 	default:
 		err = ErrHashValueIsNotFloat
 	}
 
-	if err == nil{
-		he.set(field, strconv.Itoa(n))
+	if err != nil{
+		return 0, err
 	}
 
-	return n, err
+	sum, err := addInt(int64(n), int64(increment))
+	if err != nil{
+		return 0, err
+	}
+
+	he.set(field, strconv.FormatInt(sum, 10))
+
+	return int(sum), nil
 }
 
 var ErrHashValueIsNotFloat = errors.New("hash value is not a float")
@@ -233,6 +240,10 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if _, err = addFloat(0, increment); err != nil{
+		return 0, err
+	}
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return f, err
@@ -252,33 +263,37 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	switch val := v.(type) {
 	case string:
 		if val == ""{
-			f = increment
-		}else if f, err = parseFloat(val); err == nil{
-			f += increment
-		}else{
+			f = 0
+		}else if f, err = parseFloat(val); err != nil{
 			err = ErrHashValueIsNotFloat
 		}
 	case float64:
-		f = val + increment
+		f = val
 	case int:
-		f = float64(val) + increment
+		f = float64(val)
 	case int32:
-		f = float64(val) + increment
+		f = float64(val)
 	case int64:
-		f = float64(val) + increment
+		f = float64(val)
 	case uint32:
-		f = float64(val) + increment
+		f = float64(val)
 	case uint64:
-		f = float64(val) + increment
+		f = float64(val)
 	default:
 		err = ErrHashValueIsNotFloat
 	}
 
-	if err == nil{
-		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
+	if err != nil{
+		return 0, err
 	}
 
-	return f, err
+	if f, err = addFloat(f, increment); err != nil{
+		return 0, err
+	}
+
+	he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
+
+	return f, nil
 }
 //HMSET
 func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 1f8c54e..8100e80 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -39,6 +39,25 @@ func parseFloat(value string) (float64, error) {
 	return f, nil
 }
 
+// a sum that is not an int64 or not finite is an error, as in redis
+func addInt(n, increment int64) (int64, error) {
+	sum := n + increment
+	if (sum > n) != (increment > 0) {
+		return 0, ErrOverflow
+	}
+
+	return sum, nil
+}
+
+func addFloat(f, increment float64) (float64, error) {
+	sum := f + increment
+	if math.IsNaN(sum) || math.IsInf(sum, 0) {
+		return 0, ErrOverflow
+	}
+
+	return sum, nil
+}
+
 func formatFloat(f float64) string {
 	return strconv.FormatFloat(f, 'f', -1, 64)
 }
@@ -281,31 +300,30 @@ func (c *Cache) incrBy(key string, increment int64) (int, error) {
 		return int(increment), nil
 	}
 
-	var n int
-	var val interface{}
+	var n int64
 	switch t := actual.(type) {
 	case uint64:
-		val = t + uint64(increment)
-		n = int(t + uint64(increment))
+		n = int64(t)
 	case uint32:
-		val = t + uint32(increment)
-		n = int(t + uint32(increment))
+		n = int64(t)
 	case int64:
-		val = t + increment
-		n = int(t + increment)
+		n = t
 	case int32:
-		val = t + int32(increment)
-		n = int(t + int32(increment))
+		n = int64(t)
 	case int:
-		val = t + int(increment)
-		n = t + int(increment)
+		n = int64(t)
 	default:
 		return 0, ErrWrongType
 	}
 
-	c.dataDict.Store(key, val)
+	n, err := addInt(n, increment)
+	if err != nil {
+		return 0, err
+	}
+
+	c.dataDict.Store(key, n)
 
-	return n,nil
+	return int(n), nil
 }
 
 func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
@@ -314,36 +332,40 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 
 	c.expired(key)
 
+	if _, err := addFloat(0, increment); err != nil {
+		return 0, err
+	}
+
 	actual, ok := c.dataDict.LoadOrStore(key, tryInt64(formatFloat(increment)))
 	if !ok {
 		return increment, nil
 	}
 
+	var f float64
 	switch val := actual.(type) {
 	case float64:
-		val += increment
-		c.dataDict.Store(key, tryInt64(formatFloat(val)))
-		return val, nil
+		f = val
 	case int:
-		f := float64(val) + increment
-		c.dataDict.Store(key, tryInt64(formatFloat(f)))
-		return f, nil
+		f = float64(val)
 	case int64:
-		f := float64(val) + increment
-		c.dataDict.Store(key, tryInt64(formatFloat(f)))
-		return f, nil
+		f = float64(val)
 	case string:
-		f, err := parseFloat(val)
-		if err != nil {
+		var err error
+		if f, err = parseFloat(val); err != nil {
 			return 0, err
 		}
-
-		f += increment
-		c.dataDict.Store(key, tryInt64(formatFloat(f)))
-		return f, nil
 	default:
 		return 0, ErrWrongType
 	}
+
+	f, err := addFloat(f, increment)
+	if err != nil {
+		return 0, err
+	}
+
+	c.dataDict.Store(key, tryInt64(formatFloat(f)))
+
+	return f, nil
 }
 
 func (c *Cache) Decr(key string) (int, error) {
@@ -357,6 +379,10 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if decrement == math.MinInt64 {
+		return 0, ErrOverflow
+	}
+
 	return c.incrBy(key, -decrement)
 
 }
-- 
2.43.0


From 912edf8e67e0dc767b13f8dc905912a325aa151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 17/22] fix: a connection notes that it broke without a data
 race

---
 redis/conn.go | 21 +++++++++++----------
 redis/pool.go |  3 ++-
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 185089a..824482f 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"net"
 	"strconv"
+	"sync/atomic"
 	"time"
 )
 
@@ -19,7 +20,7 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
-	broken       bool // sending or receiving has failed
+	broken       int32 // 1 once sending or receiving has failed, one goroutine may send while another receives
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -39,7 +40,7 @@ func (c *Conn) Recv() (Message, error) {
 
 	message, err := c.readMessage()
 	if err != nil {
-		c.broken = true
+		atomic.StoreInt32(&c.broken, 1)
 	}
 
 	return message, err
@@ -57,7 +58,7 @@ func (c *Conn) Send(message Message) error {
 	}
 
 	if err != nil {
-		c.broken = true
+		atomic.StoreInt32(&c.broken, 1)
 	}
 
 	return err
@@ -90,20 +91,20 @@ func (c *Conn) Close() error {
 	return c.conn.Close()
 }
 
-func (c Conn) extendReadDeadline() {
+func (c *Conn) extendReadDeadline() {
 	if c.ReadTimeout > 0 {
 		_ = c.conn.SetReadDeadline(time.Now().Add(c.ReadTimeout))
 	}
 }
 
 // Protocol length
-func (c Conn) readProtocol() (Protocol, error) {
+func (c *Conn) readProtocol() (Protocol, error) {
 	var p byte
 	p, err := c.Reader.ReadByte()
 	return Protocol(p), err
 }
 
-func (c Conn) readBulkString(length int) string {
+func (c *Conn) readBulkString(length int) string {
 	if length > 0 {
 		var data = make([]byte, length)
 		_, err := c.Reader.Read(data)
@@ -119,7 +120,7 @@ func (c Conn) readBulkString(length int) string {
 }
 
 // read the \r\n that follows the data of a bulk string
-func (c Conn) discardEof() error {
+func (c *Conn) discardEof() error {
 	var eof [len(MessageEOF)]byte
 	if _, err := io.ReadFull(c.Reader, eof[:]); err != nil {
 		return err
@@ -133,7 +134,7 @@ func (c Conn) discardEof() error {
 }
 
 // read a whole line of any length, the line end is required and removed
-func (c Conn) readLine() ([]byte, error) {
+func (c *Conn) readLine() ([]byte, error) {
 	line, err := c.Reader.ReadBytes('\n')
 	if err != nil {
 		return nil, err
@@ -147,7 +148,7 @@ func (c Conn) readLine() ([]byte, error) {
 }
 
 // save message content to io reader
-func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
+func (c *Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	c.extendReadDeadline()
 	protocol, err := c.readProtocol()
 	// a master sends empty lines to keep the connection alive while it prepares the snapshot
@@ -231,7 +232,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	}
 }
 
-func (c Conn) readMessage() (Message, error) {
+func (c *Conn) readMessage() (Message, error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return nil, err
diff --git a/redis/pool.go b/redis/pool.go
index d75d13e..faf5fbe 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -97,7 +98,7 @@ func (pool *Pool) create() (conn *Conn, err error) {
 func (pool *Pool) Put(conn *Conn) {
 	if conn != nil {
 		// the stream of a broken conn is out of step, it must not be used again
-		if conn.broken {
+		if atomic.LoadInt32(&conn.broken) == 1 {
 			_ = conn.Close()
 			conn = nil
 		}
-- 
2.43.0


From 6818656e07125c815cc9d00be7a0013af043259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:33 +0000
Subject: [PATCH 18/22] fix: a time to live beyond 292 years does not wrap
 around, one that is not positive is an error

---
 cache/cache.go       |  1 +
 cache/cachestring.go | 12 ++++++++++--
 cache/cacheutil.go   | 14 +++++++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index bf5510c..a7ead78 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -31,5 +31,6 @@ var ErrKeyNil = errors.New("redis nil")
 var ErrWrongType = errors.New("wrong type,operation against a key holding the wrong kind of value")
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
 var ErrOverflow = errors.New("increment or decrement would overflow")
+var ErrInvalidExpire = errors.New("invalid expire time")
 
 var OK = "OK"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 8100e80..3f2472a 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -81,8 +81,12 @@ func (c *Cache) SetEX(key, value string, expires int64) (string, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if expires <= 0 {
+		return "", ErrInvalidExpire
+	}
+
 	c.dataDict.Store(key, tryInt64(value))
-	c.expires(key, time.Second*time.Duration(expires))
+	c.expires(key, multiplyDuration(expires, time.Second))
 
 	return OK, nil
 }
@@ -91,8 +95,12 @@ func (c *Cache) PSetEX(key, value string, expiresMs int64) (string, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if expiresMs <= 0 {
+		return "", ErrInvalidExpire
+	}
+
 	c.dataDict.Store(key, tryInt64(value))
-	c.expires(key, time.Millisecond*time.Duration(expiresMs))
+	c.expires(key, multiplyDuration(expiresMs, time.Millisecond))
 
 	return OK, nil
 }
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index 2c331d8..9b3d63f 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"math"
+	"time"
+)
 
 // if key is expired
 func (c *Cache) expired(key string) bool {
@@ -23,6 +26,15 @@ func (c *Cache) expired(key string) bool {
 	return expired
 }
 
+// n positive units, the longest duration there is if they do not fit
+func multiplyDuration(n int64, unit time.Duration) time.Duration {
+	if n > math.MaxInt64/int64(unit) {
+		return math.MaxInt64
+	}
+
+	return time.Duration(n) * unit
+}
+
 // set expire time after duration from now
 // if duration < 0, remove expire time
 func (c *Cache) expires(key string, duration time.Duration) {
-- 
2.43.0


From 765f34f6c822c77db5e269466a248a05ab1d3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:33 +0000
Subject: [PATCH 19/22] fix: GetRange does not loop over the indexes before the
 first byte

---
 cache/cachestring.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 3f2472a..2666a15 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -267,19 +267,25 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 		return "", err
 	}
 
+	if start < 0 && end < 0 && start > end {
+		return "", nil
+	}
 	if start < 0 {
 		start = len(oldStr) + start
 	}
 	if end < 0 {
 		end = len(oldStr) + end
 	}
+	// the first byte is the least index, as in redis
+	if start < 0 {
+		start = 0
+	}
+	if end < 0 {
+		end = 0
+	}
 
 	var str []byte
 	for i := start; i <= end; i++ {
-		if i < 0 {
-			continue
-		}
-
 		if i >= len(oldStr) {
 			break
 		}
-- 
2.43.0


From 8edbe3ab7191bb1181eb395503ab284f8713091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:36 +0000
Subject: [PATCH 20/22] fix: SetRange refuses an offset beyond the longest
 string instead of running out of memory

---
 cache/cache.go       | 1 +
 cache/cachestring.go | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index a7ead78..09ebf3d 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -32,5 +32,6 @@ var ErrWrongType = errors.New("wrong type,operation against a key holding the wr
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
 var ErrOverflow = errors.New("increment or decrement would overflow")
 var ErrInvalidExpire = errors.New("invalid expire time")
+var ErrStringTooLong = errors.New("string exceeds maximum allowed size")
 
 var OK = "OK"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 2666a15..9788dfd 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -201,6 +201,9 @@ func (c *Cache) Append(key string, value string) (int, error) {
 	return len(value), nil
 }
 
+// maxStringLength is the longest value that SetRange pads to, as in redis
+const maxStringLength = 512 * 1024 * 1024
+
 func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
@@ -215,6 +218,9 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 		if replace == "" {
 			return 0, nil
 		}
+		if pos > maxStringLength-len(replace) {
+			return 0, ErrStringTooLong
+		}
 
 		str := make([]byte, pos)
 		for i := 0; i < pos; i++ {
@@ -235,6 +241,9 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	if replace == "" {
 		return len(oldStr), nil
 	}
+	if pos > maxStringLength-len(replace) {
+		return 0, ErrStringTooLong
+	}
 
 	str := []byte(oldStr)
 	for i := len(str); i < pos; i++{
-- 
2.43.0


From db94dd3e5437b29e8fddbea2353f4103d41d97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:40 +0000
Subject: [PATCH 21/22] fix: a message nested too deeply is an error instead of
 a stack overflow

---
 redis/conn.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 824482f..7cc9aba 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -38,7 +38,7 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 func (c *Conn) Recv() (Message, error) {
 	c.extendReadDeadline()
 
-	message, err := c.readMessage()
+	message, err := c.readMessage(0)
 	if err != nil {
 		atomic.StoreInt32(&c.broken, 1)
 	}
@@ -232,7 +232,14 @@ func (c *Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	}
 }
 
-func (c *Conn) readMessage() (Message, error) {
+// maxMessageDepth is how deep arrays may be nested, the stack is not unlimited
+const maxMessageDepth = 10000
+
+func (c *Conn) readMessage(depth int) (Message, error) {
+	if depth > maxMessageDepth {
+		return nil, errors.New("message is nested too deeply")
+	}
+
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return nil, err
@@ -316,7 +323,7 @@ func (c *Conn) readMessage() (Message, error) {
 
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
-			if message, err := c.readMessage(); err != nil {
+			if message, err := c.readMessage(depth + 1); err != nil {
 				return nil, err
 			} else {
 				messages = append(messages, message)
-- 
2.43.0


From 0c7b6cfbff76a1b90bcf38437043ceed822d8c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 22/22] fix: a string command does not accept an array as its
 answer

---
 redis/command.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redis/command.go b/redis/command.go
index cff43ce..65ab83b 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -41,6 +41,11 @@ type StringCommand struct {
 }
 
 func (cmd *StringCommand) Parse(message Message) {
+	if _, ok := message.(ArrayMessage); ok {
+		cmd.Err = errors.New("failed to parse response")
+		return
+	}
+
 	cmd.Val = message.String()
 }
 
-- 
2.43.0

