From 51fc964c25c87bc416080bd6f85315c40da244be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 01/65] fix: record readers stop on read errors and ignore an
 incomplete trailing record

---
 formosabbs/file.go | 8 ++++++--
 pttbbs/board.go    | 8 ++++++--
 pttbbs/file.go     | 8 ++++++--
 pttbbs/passwd.go   | 8 ++++++--
 pttbbs/userinfo.go | 4 ++--
 5 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 3933660..6bffa03 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -51,11 +51,15 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 	for {
 		hdr := make([]byte, 248)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// end of file, a trailing incomplete record is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFomosaBBSFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 4c6b1ea..13ad99a 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -179,11 +179,15 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 
 	for {
 		hdr := make([]byte, BoardHeaderRecordLength)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// end of file, a trailing incomplete record is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalBoardHeader(hdr)
 		if err != nil {
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 98c5931..2973d56 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -113,11 +113,15 @@ func OpenFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 	for {
 		hdr := make([]byte, 128)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// end of file, a trailing incomplete record is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index e0a365e..f269b47 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -211,11 +211,15 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 
 	for {
 		buf := make([]byte, 512)
-		_, err := file.Read(buf)
+		_, err := io.ReadFull(file, buf)
 		// log.Println(len, buf, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// end of file, a trailing incomplete record is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalUserec(buf)
 		if err != nil {
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 156452a..78cc587 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -149,8 +149,8 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 	for {
 		buf := make([]byte, 3484)
 
-		_, err := file.Read(buf)
-		if err == io.EOF {
+		_, err := io.ReadFull(file, buf)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
 			break
 		} else if err != nil {
 			log.Println(err)
-- 
2.43.0


From 77e2196600057d81746de133d328b8d20466f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 02/65] fix: close record and log files after reading them

---
 formosabbs/file.go     | 1 +
 pttbbs/bad_logins.go   | 1 +
 pttbbs/board.go        | 1 +
 pttbbs/login_recent.go | 1 +
 pttbbs/passwd.go       | 1 +
 pttbbs/userinfo.go     | 1 +
 6 files changed, 6 insertions(+)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 6bffa03..95ca92a 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -46,6 +46,7 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*FileHeader{}
 
diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 9f3cf12..f817d58 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -89,6 +89,7 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	var ret []*LoginAttempt
 
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 13ad99a..46721a3 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -174,6 +174,7 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*BoardHeader{}
 
diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index 6a6d677..0724746 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -35,6 +35,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*LoginRecentRecord{}
 
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index f269b47..f996315 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -206,6 +206,7 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*Userec{}
 
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 78cc587..ab8ed8f 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -143,6 +143,7 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*UserInfoCache{}
 
-- 
2.43.0


From ee86b75ffd568f7a1c24460bfdb3eecb07c50eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 03/65] fix: WriteBoardArticleFile truncates the old content

---
 pttbbs/pttbbs_write_article_connector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index f1ae447..2527f88 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -63,6 +63,11 @@ func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
 	}
 	defer filelock.Unlock(f)
 
+	// truncate only after the lock is held
+	if err := f.Truncate(0); err != nil {
+		return err
+	}
+
 	if _, err := f.Write(content); err != nil {
 		return err
 	}
-- 
2.43.0


From 3375eaa1d6add62e8316dc37cad31bbfa6014072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 04/65] fix: keep file mode and money/anonymous/vote union when
 marshaling an article record

---
 pttbbs/file.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index 2973d56..b0c7ddd 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -242,7 +242,19 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	copy(ret[PosOfFileHeaderDate:PosOfFileHeaderDate+6], f.date)
 	copy(ret[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], utf8ToBig5UAOString(f.title))
 
-	// TODO: Check file mode for set Money or AnnoUID ... etc
+	// the union holds a different member depending on the file mode
+	multi := ret[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4]
+	if f.IsVotePost() {
+		multi[0] = f.VoteLimits.Posts
+		multi[1] = f.VoteLimits.Logins
+		multi[2] = f.VoteLimits.Regtime
+		multi[3] = f.VoteLimits.Badpost
+	} else if f.Filemode&FileAnonymous != 0 {
+		binary.LittleEndian.PutUint32(multi, uint32(f.AnnoUID))
+	} else {
+		binary.LittleEndian.PutUint32(multi, uint32(f.money))
+	}
+	ret[PosOfFileHeaderFilemode] = f.Filemode
 
 	return ret, nil
 }
-- 
2.43.0


From 94bc83cf25f2ee35674fefdba86d393ac76a7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 05/65] fix: article money is a signed 32-bit value

---
 pttbbs/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index b0c7ddd..18fda98 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -214,7 +214,7 @@ func NewFileHeaderWithByte(data []byte) (*FileHeader, error) {
 	ret.title = big5uaoToUTF8String(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], "\x00"))
 	// log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
-	ret.money = int(binary.LittleEndian.Uint32(data[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4]))
+	ret.money = int(int32(binary.LittleEndian.Uint32(data[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4])))
 	ret.AnnoUID = int(binary.LittleEndian.Uint32(data[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4]))
 
 	ret.Filemode = uint8(data[PosOfFileHeaderFilemode])
-- 
2.43.0


From f6bc4e06c306c8bd98fb78caca8d997db3ff5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 06/65] fix: text fields end at the first NUL byte

---
 formosabbs/file.go | 7 +++----
 pttbbs/board.go    | 4 ++--
 pttbbs/file.go     | 9 ++++-----
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 95ca92a..da6e345 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -3,7 +3,6 @@ package bbs
 import (
 	"github.com/Ptt-official-app/go-bbs"
 
-	"bytes"
 	"encoding/binary"
 	"io"
 	"log"
@@ -78,16 +77,16 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 func NewFomosaBBSFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.Filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+44], "\x00"))
+	ret.Filename = bbs.CstrToString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+44])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	// log.Println("modifiedInt:", modifiedInt, PosOfModified)
 	ret.Modified = time.Unix(int64(modifiedInt), 0)
 
 	// ret.Recommend = int8(data[PosOfRecommend])
-	ret.Owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+72], "\x00"))
+	ret.Owner = bbs.CstrToString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+72])
 	// ret.Date = string(bytes.Trim(data[PosOfDate:PosOfDate+6], "\x00"))
-	ret.Title = bbs.Big5ToUtf8(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+67], "\x00"))
+	ret.Title = bbs.Big5ToUtf8(bbs.CstrToBytes(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+67]))
 	// // log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	// ret.Money = int(binary.LittleEndian.Uint32(data[PosOfUnionMulti : PosOfUnionMulti+4]))
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 46721a3..51965d5 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -280,7 +280,7 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 
 	ret.BrdName = big5uaoToUTF8String(bytes.Split(data[PosOfBoardName:PosOfBoardName+IDLength+1], []byte("\x00"))[0])
 	ret.title = big5uaoToUTF8String(bytes.Split(data[PosOfBoardTitle:PosOfBoardTitle+BoardTitleLength+1], []byte("\x00"))[0]) // Be careful about C-string end char \0
-	ret.bm = string(bytes.Trim(data[PosOfBM:PosOfBM+IDLength*3+3], "\x00"))
+	ret.bm = newStringFormBig5UAOCString(data[PosOfBM : PosOfBM+IDLength*3+3])
 	ret.Brdattr = binary.LittleEndian.Uint32(data[PosOfBrdAttr : PosOfBrdAttr+4])
 	ret.VoteLimitPosts = uint8(data[PosOfVoteLimitPosts])
 	ret.VoteLimitLogins = uint8(data[PosOfVoteLimitLogins])
@@ -324,7 +324,7 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfBoardName:PosOfBoardName+IDLength+1], utf8ToBig5UAOString(b.BrdName))
 	copy(ret[PosOfBoardTitle:PosOfBoardTitle+BoardTitleLength+1], utf8ToBig5UAOString(b.title))
-	copy(ret[PosOfBM:PosOfBM+IDLength*3+3], b.bm)
+	copy(ret[PosOfBM:PosOfBM+IDLength*3+3], utf8ToBig5UAOString(b.bm))
 	binary.LittleEndian.PutUint32(ret[PosOfBrdAttr:PosOfBrdAttr+4], b.Brdattr)
 	ret[PosOfVoteLimitPosts] = b.VoteLimitPosts
 	ret[PosOfVoteLimitLogins] = b.VoteLimitLogins
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 18fda98..f9b2d65 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -27,7 +27,6 @@
 package pttbbs
 
 import (
-	"bytes"
 	"encoding/binary"
 	"io"
 	"log"
@@ -203,15 +202,15 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 func NewFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+FileNameLength], "\x00"))
+	ret.filename = newStringFormCString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+FileNameLength])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	ret.modified = time.Unix(int64(modifiedInt), 0)
 
 	ret.recommend = int8(data[PosOfFileHeaderRecommend])
-	ret.owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], "\x00"))
-	ret.date = string(bytes.Trim(data[PosOfFileHeaderDate:PosOfFileHeaderDate+6], "\x00"))
-	ret.title = big5uaoToUTF8String(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], "\x00"))
+	ret.owner = newStringFormCString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+IDLength+2])
+	ret.date = newStringFormCString(data[PosOfFileHeaderDate : PosOfFileHeaderDate+6])
+	ret.title = newStringFormBig5UAOCString(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+TitleLength+1])
 	// log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	ret.money = int(int32(binary.LittleEndian.Uint32(data[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4])))
-- 
2.43.0


From 9439e2e3de900e946d4e5ae2aa94792b1b7f10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 07/65] fix: board post types round trip (empty first slot,
 flag mask)

---
 pttbbs/board.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 51965d5..01b4e72 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -307,8 +307,8 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 	ret.PostExpire = int32(binary.LittleEndian.Uint32(data[PosOfPostExpire : PosOfPostExpire+4]))
 	endGamble := binary.LittleEndian.Uint32(data[PosOfEndGamble : PosOfEndGamble+4])
 	ret.EndGamble = time.Unix(int64(endGamble), 0)
-	ret.PostType = big5uaoToUTF8String(bytes.Trim(data[PosOfPostType:PosOfPostType+33], "\x00"))
-	ret.PostTypeF = big5uaoToUTF8String(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))
+	ret.PostType = big5uaoToUTF8String(bytes.TrimRight(data[PosOfPostType:PosOfPostType+33], "\x00"))
+	ret.PostTypeF = string(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00")) // a bit mask, not a text
 
 	ret.FastRecommendPause = uint8(data[PosOfFastRecommendPause])
 	ret.VoteLimitBadPost = uint8(data[PosOfVoteLimitBadPost])
@@ -355,7 +355,7 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
 	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], uint32(b.EndGamble.Unix()))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
-	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], utf8ToBig5UAOString(b.PostTypeF))
+	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], b.PostTypeF)
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
-- 
2.43.0


From 5a11ba217d0d0300a9a845426260717800ed66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 08/65] fix: Utf8ToBig5 replaces unsupported characters instead
 of dropping the rest

---
 big5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big5.go b/big5.go
index 1ce4235..a346834 100644
--- a/big5.go
+++ b/big5.go
@@ -20,12 +20,14 @@
 package bbs
 
 import (
+	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/traditionalchinese"
 	"golang.org/x/text/transform"
 )
 
 func Utf8ToBig5(input string) []byte {
-	utf8ToBig5 := traditionalchinese.Big5.NewEncoder()
+	// a character which Big5 does not have must not drop the text after it
+	utf8ToBig5 := encoding.ReplaceUnsupported(traditionalchinese.Big5.NewEncoder())
 	big5, _, _ := transform.Bytes(utf8ToBig5, []byte(input))
 	return big5
 }
-- 
2.43.0


From ab4d6446c7533ae5f9c71d3ea7a11a60217f221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 09/65] fix: keep colons and inner spaces of a user comment

---
 user_comment_record.go | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/user_comment_record.go b/user_comment_record.go
index 23beb45..5280793 100644
--- a/user_comment_record.go
+++ b/user_comment_record.go
@@ -126,22 +126,9 @@ func parseUserComment(data string) (owner string, ctime time.Time, comment strin
 		return
 	}
 
-	//TODO: improve get comment
-	ownStr := ":"
-	commentTimeRemoveArr := strings.Split(commentStr, ctimeStr)
-	commentArr := strings.Split(commentTimeRemoveArr[0], ownStr)
-
-	for key, value := range commentArr {
-		//key 0 為使用者名稱，跳過
-		if key == 0 {
-			continue
-		}
-		comment += strings.TrimSpace(value)
-		//key 2 開始才會有重複冒號的問題
-		if key >= 2 {
-			comment += ":"
-		}
-	}
+	// The comment is what stands between "owner:" and the time at the end.
+	comment = commentStr[len(owner)+len(":") : len(commentStr)-len(ctimeStr)]
+	comment = strings.TrimSpace(comment)
 
 	return owner, ctime, comment, nil
 }
-- 
2.43.0


From 3784c179ae7b40ce4522fe41196d5092a1373326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 10/65] fix: an invalid comment line does not hide the other
 comments

---
 bbs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bbs.go b/bbs.go
index 6db7b31..b794668 100644
--- a/bbs.go
+++ b/bbs.go
@@ -683,8 +683,10 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 			if errors.Is(err, ErrNotUserComment) {
 				continue
 			}
+			// a line which looks like a comment but is not valid (eg. 99/99 99:99)
+			// must not hide the real comments
 			log.Println("bbs: NewUserCommentRecord error:", err)
-			return nil, err
+			continue
 		}
 		crs = append(crs, cr)
 		floorCnt++
-- 
2.43.0


From 1e7b14a09eed562f1231071e0a8fee893bfd9a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 11/65] fix: comments after a line longer than 64 KiB are not
 lost

---
 bbs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bbs.go b/bbs.go
index b794668..56ffcf4 100644
--- a/bbs.go
+++ b/bbs.go
@@ -675,6 +675,8 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 	floorCnt := uint32(1)
 	scanner := bufio.NewScanner(strings.NewReader(string(content)))
+	// a line may be as long as the whole article
+	scanner.Buffer(nil, len(content)+1)
 	for scanner.Scan() {
 		l := FilterStringANSI(scanner.Text())
 		cr, err := NewUserCommentRecord(floorCnt, l, boardID, ar)
-- 
2.43.0


From 13df0aea0378c0525b5f69931dca48e0517bdc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 12/65] fix: a deleted article does not break listing a user's
 comments

---
 bbs.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bbs.go b/bbs.go
index 56ffcf4..b62be1e 100644
--- a/bbs.go
+++ b/bbs.go
@@ -647,8 +647,16 @@ func (db *DB) GetBoardUserCommentRecord(boardID, userID string) (recs []UserComm
 	}
 
 	for _, ar := range ars {
+		if ar.Filename() == "" {
+			// skip empty record
+			continue
+		}
 		crs, err := db.GetBoardArticleCommentRecords(boardID, ar)
 		if err != nil {
+			if strings.Contains(err.Error(), "no such file or directory") {
+				// skip deleted article
+				continue
+			}
 			log.Println("bbs: GetBoardArticleCommentRecords error:", err)
 			return nil, err
 		}
-- 
2.43.0


From e56c4f3c9e665c8f24be2a62632b0313128ee28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 13/65] fix: path functions return error for an empty id,
 unused board slots are skipped

---
 bbs.go         |  6 ++++--
 pttbbs/path.go | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/bbs.go b/bbs.go
index b62be1e..5759fcc 100644
--- a/bbs.go
+++ b/bbs.go
@@ -547,7 +547,8 @@ func (db *DB) GetUserArticleRecordFile(userID string) ([]UserArticleRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		// an unused board slot has no id
+		if boardID == "" || boardID == "ALLPOST" {
 			return true
 		}
 		return false
@@ -614,7 +615,8 @@ func (db *DB) GetUserCommentRecordFile(userID string) ([]UserCommentRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		// an unused board slot has no id
+		if boardID == "" || boardID == "ALLPOST" {
 			return true
 		}
 		return false
diff --git a/pttbbs/path.go b/pttbbs/path.go
index 276786b..ba445b2 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -20,10 +20,16 @@
 package pttbbs
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
 
+var (
+	ErrEmptyUserID  = errors.New("user id must not be empty")
+	ErrEmptyBoardID = errors.New("board id must not be empty")
+)
+
 // Get Passwd file path of system
 func GetPasswdsPath(workDirectory string) (string, error) {
 	return fmt.Sprintf("%s/.PASSWDS", workDirectory), nil
@@ -36,11 +42,17 @@ func GetBoardPath(workDirectory string) (string, error) {
 
 // Get Favorite file path of user
 func GetUserFavoritePath(workDirectory string, userID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/.fav", workDirectory, userID[0], userID), nil
 }
 
 // Get Draft file path of user
 func GetUserDraftPath(workDirectory string, userID string, draftID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/buf.%s", workDirectory, userID[0], userID, draftID), nil
 }
 
@@ -49,16 +61,25 @@ func GetUserDraftPath(workDirectory string, userID string, draftID string) (stri
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetUserMailPath(workDirectory string, userID string, filename string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/%s", workDirectory, userID[0], userID, filename), nil
 }
 
 // Get Login Recent file path of user
 func GetLoginRecentPath(workDirectory string, userID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/logins.recent", workDirectory, userID[0], userID), nil
 }
 
 // Get Directory normal file path of board
 func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.DIR", workDirectory, boardID[0], boardID), nil
 }
 
@@ -67,6 +88,9 @@ func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetBoardArticleFilePath(workDirectory string, boardID string, filename string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/%s", workDirectory, boardID[0], boardID, filename), nil
 }
 
@@ -75,12 +99,18 @@ func GetBoardArticleFilePath(workDirectory string, boardID string, filename stri
 // figure out each directory, eg: `["M.971228479.A", "M.1035338027.A"]` in formosa BBS or
 // `["D690", "D6C2", "D6D1"]` in pttbbs.
 func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path []string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
 func GetBoardTreasureFilePath(workDirectory string, boardID string, path []string, filename string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
@@ -88,5 +118,8 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 
 // Get Directory digest file path of board
 func GetBoardNameFilePath(workDirectory string, boardID string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.Name", workDirectory, boardID[0], boardID), nil
 }
-- 
2.43.0


From 3d7dcead248a3cc7572f46310f255005ed9848bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 14/65] fix: treasure path functions do not write to the
 caller's slice

---
 pttbbs/path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index ba445b2..67b7847 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -102,8 +102,10 @@ func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path [
 	if boardID == "" {
 		return "", ErrEmptyBoardID
 	}
-	path = append(path, "")
 	subPath := strings.Join(path, "/")
+	if len(path) > 0 {
+		subPath += "/"
+	}
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
@@ -111,8 +113,10 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 	if boardID == "" {
 		return "", ErrEmptyBoardID
 	}
-	path = append(path, "")
 	subPath := strings.Join(path, "/")
+	if len(path) > 0 {
+		subPath += "/"
+	}
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
 }
 
-- 
2.43.0


From e1b75b2bfe2406b6d52ed219d6b2820c07d8b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 15/65] fix: an empty favorites file is an error, not a panic

---
 pttbbs/fav.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index dbbe4d1..386ec64 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -204,6 +204,9 @@ func OpenFavFile(filename string) (*FavFile, error) {
 func UnmarshalFavFile(data []byte) (*FavFile, error) {
 	ret := &FavFile{}
 	size := 2
+	if len(data) < size {
+		return nil, ErrIndexOutOfBound
+	}
 	ret.Version = binary.LittleEndian.Uint16(data[0:size])
 
 	var err error
-- 
2.43.0


From 4d0ad585168ba96a117b7eb5f30d217f33a942a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 16/65] fix: favorites item count does not overflow 16 bits

---
 pttbbs/fav.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index 386ec64..0ae9e6f 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -249,13 +249,14 @@ func UnmarshalFavFolder(data []byte, startIndex int) (*FavFolder, int, error) {
 	ret.LineID = 0
 	ret.FolderID = 0
 
-	itemCount := ret.DataTail
+	// the sum of the counts may not fit DataTail
+	itemCount := int(ret.NBoards) + int(ret.NFolders) + int(ret.NLines)
 	ret.FavItems = make([]*FavItem, itemCount)
 	var err error
 
 	// There are itemCount items, parse and insert them one by one
 	for itemCount > 0 {
-		n := len(ret.FavItems) - int(itemCount) // calculate index
+		n := len(ret.FavItems) - itemCount // calculate index
 		ret.FavItems[n], c, err = UnmarshalFavItem(data, c)
 		if err != nil {
 			return nil, 0, err
-- 
2.43.0


From 40179179e40b7b0eb2223840b8f6833be7362fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 17/65] fix: a favorite of a removed board does not panic

---
 pttbbs/pttbbs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index c979d26..b0cd438 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -85,6 +85,10 @@ func appendBoardID(folder *FavFolder, brd []*BoardHeader) {
 		switch item.Item.(type) {
 		case *FavBoardItem:
 			bid := item.Item.(*FavBoardItem).BoardID - 1
+			if uint64(bid) >= uint64(len(brd)) {
+				// the board is gone
+				continue
+			}
 			item.Item.(*FavBoardItem).boardID = brd[bid].BrdName
 		case *FavFolderItem:
 			appendBoardID(item.Item.(*FavFolderItem).ThisFolder, brd)
-- 
2.43.0


From 0b5a4acfbf521bfcbab34a7a6b16a79d30410013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 18/65] fix: an invalid stored password hash or salt is an
 error, not a panic

---
 crypt/bbscrypt.go | 3 +++
 pttbbs/passwd.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crypt/bbscrypt.go b/crypt/bbscrypt.go
index a0a02f4..45500a8 100644
--- a/crypt/bbscrypt.go
+++ b/crypt/bbscrypt.go
@@ -17,6 +17,9 @@ var (
 //	[]byte: encrypted passwd, should be the same as salt if salt is the expected-passwd-hash.
 //  error: err
 func Fcrypt(key []byte, salt []byte) ([]byte, error) {
+	if len(salt) < 2 || int(salt[0]) >= len(conSalt) || int(salt[1]) >= len(conSalt) {
+		return nil, ErrInvalidCrypt
+	}
 	passwdHash := [PASSLEN]byte{}
 	cFcrypt(key, salt, &passwdHash)
 	return passwdHash[:], nil
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index f996315..6c354ed 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -154,6 +154,9 @@ func (u *Userec) HashedPassword() string {
 // VerifyPassword will check user's password is OK. it will return null
 // when OK and error when there are something wrong
 func (u *Userec) VerifyPassword(password string) error {
+	if len(u.password) < 2 {
+		return fmt.Errorf("password incorrect")
+	}
 	res, err := crypt.Fcrypt([]byte(password), []byte(u.password[:2]))
 	if err != nil {
 		return err
-- 
2.43.0


From 7546b8b0dfdce5261ba3fa7ee7652fb1393aee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 19/65] fix: user record marshals the role

---
 pttbbs/passwd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 6c354ed..ee38c36 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -350,6 +350,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdExMailBox:PosOfPasswdExMailBox+4], u.ExMailBox)
 
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
 
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
-- 
2.43.0


From d11ea5260eb21d5fd2ddbe4acc01045620d377e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 20/65] fix: position of chinese chess ties in userinfo

---
 pttbbs/userinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index ab8ed8f..c3956fe 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -63,7 +63,7 @@ const (
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
 	PosOfUserInfoChcLose        = PosOfUserInfoChcWin + 2
-	PosOfUserInfoChcTie         = PosOfUserInfoFiveLose + 2
+	PosOfUserInfoChcTie         = PosOfUserInfoChcLose + 2
 	PosOfUserInfoChessEloRating = PosOfUserInfoChcTie + 2
 	PosOfUserInfoGoWin          = PosOfUserInfoChessEloRating + 2
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
-- 
2.43.0


From f9ded6dae4df2aa9db8b9d516b329fcc989fe5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 21/65] fix: a time which is not set is stored as 0

---
 pttbbs/board.go    | 10 +++++-----
 pttbbs/encoding.go | 10 ++++++++++
 pttbbs/file.go     |  2 +-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 01b4e72..17e6357 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -329,13 +329,13 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	ret[PosOfVoteLimitPosts] = b.VoteLimitPosts
 	ret[PosOfVoteLimitLogins] = b.VoteLimitLogins
 	copy(ret[PosOfChessCountry:PosOfChessCountry+1], b.ChessCountry)
-	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], uint32(b.BUpdate.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], time4(b.BUpdate))
 	ret[PosOfPostLimitPosts] = b.PostLimitPosts
 	ret[PosOfPostLimitLogins] = b.PostLimitLogins
 	ret[PosOfBVote] = b.BVote
-	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], uint32(b.VTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], time4(b.VTime))
 	binary.LittleEndian.PutUint32(ret[PosOfLevel:PosOfLevel+4], b.Level)
-	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], uint32(b.PermReload.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], time4(b.PermReload))
 	binary.LittleEndian.PutUint32(ret[PosOfGid:PosOfGid+4], uint32(b.Gid))
 
 	if len(b.Next) == 2 {
@@ -353,14 +353,14 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint32(ret[PosOfNuser:PosOfNuser+4], uint32(b.Nuser))
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
-	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], uint32(b.EndGamble.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], time4(b.EndGamble))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
 	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], b.PostTypeF)
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
 	ret[PosOfPostLimitBadPost] = b.PostLimitBadPost
-	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], uint32(b.SRexpire.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], time4(b.SRexpire))
 
 	return ret, nil
 
diff --git a/pttbbs/encoding.go b/pttbbs/encoding.go
index 80d9ca4..7cabebc 100644
--- a/pttbbs/encoding.go
+++ b/pttbbs/encoding.go
@@ -1,6 +1,8 @@
 package pttbbs
 
 import (
+	"time"
+
 	"github.com/Ptt-official-app/go-bbs"
 )
 
@@ -20,3 +22,11 @@ func newStringFormCString(cs []byte) string {
 func newStringFormBig5UAOCString(cs []byte) string {
 	return bbs.Big5ToUtf8(bbs.CstrToBytes(cs))
 }
+
+// time4 returns t as time4_t, a time which was never set is 0.
+func time4(t time.Time) uint32 {
+	if t.IsZero() {
+		return 0
+	}
+	return uint32(t.Unix())
+}
diff --git a/pttbbs/file.go b/pttbbs/file.go
index f9b2d65..18222fa 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -234,7 +234,7 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	ret := make([]byte, 128)
 
 	copy(ret[PosOfFileHeaderFilename:PosOfFileHeaderFilename+FileNameLength], f.filename)
-	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], uint32(f.modified.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], time4(f.modified))
 
 	ret[PosOfFileHeaderRecommend] = byte(f.recommend)
 	copy(ret[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], f.owner)
-- 
2.43.0


From 7c68839e4e5feeab0f636441ce1f48ff81159caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 22/65] fix: Cache.UserInfo uses the size of userinfo_t

---
 pttbbs/cache.go    | 1 +
 pttbbs/userinfo.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 312581b..1641342 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -124,6 +124,7 @@ func (c *Cache) caculatePos() {
 	c.posOfUserLoaded = c.posOfUserNumber + 4
 
 	c.posOfUserInfo = c.posOfUserLoaded + 4
+	c.lenOfUserInfo = UserInfoLength
 
 	// TODO: other pos value
 	// 	c.posOfCooldownTime int
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index c3956fe..76ab034 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -73,6 +73,9 @@ const (
 	PosOfUserInfoBrcID  = PosOfUserInfoWithMe + 4
 
 	PosOfUserInfoWBTime = PosOfUserInfoBrcID + 4
+
+	// UserInfoLength is the size of userinfo_t
+	UserInfoLength = PosOfUserInfoWBTime + 4
 )
 
 // UserInfoCache is `userinfo_t` in pttstruct.h, all of those object will be store in shared memory
-- 
2.43.0


From 39d768564ef27e9419deb42c3719434c3ddfa3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 23/65] fix: cache without AlignmentBytes does not divide by
 zero

---
 pttbbs/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 1641342..9bac345 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -106,8 +106,8 @@ func (c *Cache) caculatePos() {
 	c.posOfUserID = c.posOfSize + 4
 
 	c.posOfNextInHash = (c.IDLen + 1) + c.posOfUserID + c.MaxUsers*(c.IDLen+1)
-	// Align
-	if c.posOfNextInHash%c.AlignmentBytes != 0 {
+	// Align, 0 (not set) is for no alignment
+	if c.AlignmentBytes > 1 && c.posOfNextInHash%c.AlignmentBytes != 0 {
 		padding := c.AlignmentBytes - c.posOfNextInHash%c.AlignmentBytes
 		c.posOfNextInHash += padding
 	}
-- 
2.43.0


From 04a2f0f270ee457c382b6abbc32f61b4df4f401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 24/65] fix: userinfo messages do not alias shared memory

---
 pttbbs/userinfo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 76ab034..5fe95fe 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -205,7 +205,8 @@ func UnmarshalUserInfo(data []byte) *UserInfoCache {
 
 	for idx := range cache.Msgs {
 		// Todo: replace it with the Unmarshal for MessageQueueCache
-		cache.Msgs[idx] = data[PosOfUserInfoMsgs+100*idx : PosOfUserInfoMsgs+100*idx+100]
+		// data may be shared memory, which changes and goes away on Close
+		cache.Msgs[idx] = append(MessageQueueCache{}, data[PosOfUserInfoMsgs+100*idx:PosOfUserInfoMsgs+100*idx+100]...)
 	}
 
 	cache.Birth = (data[PosOfUserInfoBirth] != 0)
-- 
2.43.0


From e427f46adb45dae63a744a7e60a4bd8937b13fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 25/65] fix: cache accessors check their index

---
 pttbbs/cache.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 9bac345..11b14c6 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -314,21 +314,31 @@ func (c *Cache) Version() uint32 {
 }
 
 // UserID returns userId string with specific uid, such as "SYSOP",
-// uid means the index in PASSWD file, start with 0.
+// uid means the index in PASSWD file, start with 0. It returns empty string if
+// there is no such uid.
 func (c *Cache) UserID(uid int) string {
-	// TODO: Check if it is out of range
+	if uid < 0 || uid >= c.MaxUsers {
+		return ""
+	}
 	s := c.posOfUserID + (c.IDLen+1)*uid
 	return string(bytes.Split(c.Bytes()[s:s+c.IDLen+1], []byte("\x00"))[0])
 }
 
-// Money returns the money user have with specific uid, uid start with 0
+// Money returns the money user have with specific uid, uid start with 0.
+// It returns 0 if there is no such uid.
 func (c *Cache) Money(uid int) int32 {
-	// TODO: Check if it is out of range
+	if uid < 0 || uid >= c.MaxUsers {
+		return 0
+	}
 	s := c.posOfMoney + 4*uid
 	return int32(binary.LittleEndian.Uint32(c.Bytes()[s : s+4]))
 }
 
+// UserInfo returns the online user at specific index in utmp, it returns nil if the
+// index is out of range.
 func (c *Cache) UserInfo(uid int) *UserInfoCache {
-	// TODO: Check if it is out of range
+	if uid < 0 || c.posOfUserInfo+c.lenOfUserInfo*(uid+1) > len(c.Bytes()) {
+		return nil
+	}
 	return UnmarshalUserInfo(c.Bytes()[c.posOfUserInfo+c.lenOfUserInfo*uid : c.posOfUserInfo+c.lenOfUserInfo*(uid+1)])
 }
-- 
2.43.0


From 757eecd1a780bdb62b9aadda334f5d3fb8163efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 26/65] fix: NewCache rejects a segment too small for the
 settings

---
 pttbbs/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 11b14c6..a691b22 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -303,6 +303,11 @@ func NewCache(connectionString string, settings *MemoryMappingSetting) (*Cache,
 		MemoryMappingSetting: settings,
 	}
 	ret.caculatePos()
+	if len(c.Bytes()) < ret.posOfUserInfo {
+		size := len(c.Bytes())
+		c.Close()
+		return nil, fmt.Errorf("cache is too small for the settings: %d bytes, expected at least %d", size, ret.posOfUserInfo)
+	}
 	return &ret, nil
 }
 
-- 
2.43.0


From 993cd3619813d9b2b795d54bb4456cde56f2ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 27/65] fix: cache file path may contain a colon

---
 cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 4550242..27c5b70 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -14,7 +14,7 @@ type Cache interface {
 // NewCache returns Cache (SHM) by connectionString, connectionString indicate the shm location
 // with uri format  eg. shmkey:1228 or file:/tmp/ramdisk/bbs.shm
 func NewCache(connectionString string) (Cache, error) {
-	s := strings.Split(connectionString, ":")
+	s := strings.SplitN(connectionString, ":", 2)
 	if len(s) == 1 {
 		// default is mmap
 		return OpenMmap(s[0])
-- 
2.43.0


From f630b3bbaff905050e76e9026d7b23ae4f5958cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 28/65] fix: cache accepts file:// connection strings

---
 cache/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 27c5b70..b35c699 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -28,7 +28,8 @@ func NewCache(connectionString string) (Cache, error) {
 		}
 		return OpenKey(key)
 	case "file":
-		return OpenMmap(s[1])
+		// file:/path and file:///path are both fine
+		return OpenMmap(strings.TrimPrefix(s[1], "//"))
 	default:
 		return nil, fmt.Errorf("unsupport scheme: %v", scheme)
 	}
-- 
2.43.0


From 7368a60293cab2a0fd074c0b184207ff9d04c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 29/65] fix: closing a cache twice does not unmap someone
 else's memory

---
 cache/mmap.go       | 2 ++
 cache/systemvshm.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cache/mmap.go b/cache/mmap.go
index e096595..009143d 100644
--- a/cache/mmap.go
+++ b/cache/mmap.go
@@ -73,6 +73,8 @@ func (m *Mmap) Bytes() []byte {
 
 func (m *Mmap) Close() error {
 	err := closeMmap(m.buf)
+	// the memory is gone, don't touch whatever is mapped there later
+	m.buf = nil
 
 	m.file.Close()
 
diff --git a/cache/systemvshm.go b/cache/systemvshm.go
index 144a4e7..4e4a1c2 100644
--- a/cache/systemvshm.go
+++ b/cache/systemvshm.go
@@ -113,6 +113,8 @@ func (s *SHM) Close() error {
 	hdr := (*reflect.SliceHeader)(unsafe.Pointer(&s.buf))
 	ptr := hdr.Data
 	_, err := Shmdt(ptr)
+	// the memory is gone, don't touch whatever is mapped there later
+	s.buf = nil
 
 	// release GC setting
 	runtime.SetFinalizer(s, nil)
-- 
2.43.0


From 2a69e11e5410b048ca63acc679b2f6bb9e24cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 30/65] fix: close the file when it can not be mapped

---
 cache/mmap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cache/mmap.go b/cache/mmap.go
index 009143d..4bef7d6 100644
--- a/cache/mmap.go
+++ b/cache/mmap.go
@@ -20,6 +20,7 @@ func CreateMmap(filePath string, size int64) (*Mmap, error) {
 	}
 	err = f.Truncate(size)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("truncate error: %v", err)
 	}
 
@@ -54,6 +55,7 @@ func openFile(f *os.File) (*Mmap, error) {
 	b, err := openMmap(fd, size)
 	if err != nil {
 		fmt.Println("mmap error", err)
+		f.Close()
 		return nil, fmt.Errorf("mmap error: %v", err)
 	}
 
-- 
2.43.0


From 11555e2e729b2adaaac2c2850453fec32f39ecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 31/65] fix: cache userinfo index check does not overflow

---
 pttbbs/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index a691b22..204ba8b 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -342,7 +342,7 @@ func (c *Cache) Money(uid int) int32 {
 // UserInfo returns the online user at specific index in utmp, it returns nil if the
 // index is out of range.
 func (c *Cache) UserInfo(uid int) *UserInfoCache {
-	if uid < 0 || c.posOfUserInfo+c.lenOfUserInfo*(uid+1) > len(c.Bytes()) {
+	if uid < 0 || uid >= (len(c.Bytes())-c.posOfUserInfo)/c.lenOfUserInfo {
 		return nil
 	}
 	return UnmarshalUserInfo(c.Bytes()[c.posOfUserInfo+c.lenOfUserInfo*uid : c.posOfUserInfo+c.lenOfUserInfo*(uid+1)])
-- 
2.43.0


From 5f7c317c6a332f9ae409335eefa294014e878946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 32/65] fix: a short login attempt line is an error, not a
 panic

---
 pttbbs/bad_logins.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index f817d58..64611e4 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -111,6 +111,17 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	str := string(text)
 
 	idx := 0 // current index of str
+	if len(str) == 0 {
+		return ErrInvalidLoginsBadFormat
+	}
+	prefix := 0 // length of Success and UserID
+	if str[idx] != '[' {
+		prefix = 1 + UserIDLength
+	}
+	// the time is followed by a space
+	if len(str) < prefix+len(loginStartTimeFormatString)+1 {
+		return ErrInvalidLoginsBadFormat
+	}
 	// Handle Success and UserID
 	switch str[idx] {
 	case ' ':
-- 
2.43.0


From 19de5f6f89544d47a8d8fc40ffb2e41648cfcea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 33/65] fix: report login log read errors instead of exiting or
 dropping records

---
 pttbbs/bad_logins.go   | 3 +++
 pttbbs/login_recent.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 64611e4..127a8dc 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -103,6 +103,9 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		}
 		ret = append(ret, a)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	return ret, nil
 }
 
diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index 0724746..815aaa7 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -52,7 +52,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 	}
 
 	if err := scanner.Err(); err != nil {
-		log.Fatal(err)
+		return nil, err
 	}
 
 	return ret, nil
-- 
2.43.0


From 71ccfcb1e50cb38393a36e1a7d837d3d20c77f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 34/65] fix: creating an article filename fails when the file
 can not be created

---
 pttbbs/pttbbs_write_article_connector.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index 2527f88..a950934 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -28,6 +28,10 @@ func (c *Connector) CreateBoardArticleFilename(boardID string) (filename string,
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			// the file can not be created with any name
+			return "", err
+		}
 
 		// TODO: Should log if can not lock file in first time, is system loading too heavy?
 
@@ -118,6 +122,10 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			// the file can not be created with any name
+			return nil, err
+		}
 	}
 	defer f.Close()
 
-- 
2.43.0


From 0aa3fc47e079173427800cb92748e00aa3a9de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 35/65] fix: article header of NewArticleRecordWithMap is Big5
 and never runs out of names

---
 pttbbs/pttbbs_write_article_connector.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index a950934..c037932 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -107,11 +107,10 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 	}
 
 	filename := ""
-	dtime := time.Now().Unix()
-	rand.Seed(dtime)
 
 	var f *os.File
 	for {
+		dtime := time.Now().Unix()
 		filename = fmt.Sprintf("M.%d.A.%3.3X", dtime, rand.Intn(0x1000))
 		path, err := c.GetBoardArticleFilePath(boardID, filename)
 		if err != nil {
@@ -141,7 +140,7 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 	data := fmt.Sprintf("作者: %s 看板: %s\n標題: %s \n時間: %s\n",
 		owner, boardID, title, date)
 
-	if _, err := f.Write([]byte(data)); err != nil {
+	if _, err := f.Write(utf8ToBig5UAOString(data)); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From d4b5d547c77f7be80b665d8a2f2f01ce3e31e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 36/65] fix: updating or removing a record out of range is an
 error

---
 pttbbs/board.go | 8 ++++++++
 pttbbs/file.go  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 17e6357..3a52714 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -250,6 +250,14 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 	}
 	defer fo.Close()
 
+	stat, err := fi.Stat()
+	if err != nil {
+		return fmt.Errorf("fi.Stat error: %v", err)
+	}
+	if index < 0 || int64(index) >= stat.Size()/BoardHeaderRecordLength {
+		return ErrIndexOutOfBound
+	}
+
 	_, err = fi.Seek(int64((index+1)*BoardHeaderRecordLength), os.SEEK_SET)
 	if err != nil {
 		return fmt.Errorf("fi.Seek error: %v", err)
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 18222fa..8477f44 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -184,6 +184,14 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 		return err
 	}
 
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if uint64(index) >= uint64(stat.Size()/128) {
+		return ErrIndexOutOfBound
+	}
+
 	_, err = f.Seek(int64(index)*128, os.SEEK_SET)
 	if err != nil {
 		return err
-- 
2.43.0


From d947360e085aaa5e4368c2a2a059a812c44650c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 37/65] fix: file locks lock the file

---
 filelock/filelock.go       | 12 +++++++++---
 filelock/filelock_other.go | 15 +++++++++++++++
 filelock/filelock_unix.go  | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 57 insertions(+), 3 deletions(-)
 create mode 100644 filelock/filelock_other.go
 create mode 100644 filelock/filelock_unix.go

diff --git a/filelock/filelock.go b/filelock/filelock.go
index 21d4e12..e70e7aa 100644
--- a/filelock/filelock.go
+++ b/filelock/filelock.go
@@ -1,13 +1,18 @@
 package filelock
 
+// File is an open file, such as *os.File.
 type File interface{}
 
+// Lock places an exclusive lock on the open file f, it waits until other
+// locks, in this process or another one, are released.
 func Lock(f File) error {
-	return nil
+	return lock(f)
 }
 
+// RLock places a shared lock on the open file f, it waits until the exclusive
+// lock on that file is released.
 func RLock(f File) error {
-	return nil
+	return rlock(f)
 }
 
 func IsLock(f File) bool {
@@ -15,6 +20,7 @@ func IsLock(f File) bool {
 	return false
 }
 
+// Unlock releases the lock on f, closing f releases it as well.
 func Unlock(f File) error {
-	return nil
+	return unlock(f)
 }
diff --git a/filelock/filelock_other.go b/filelock/filelock_other.go
new file mode 100644
index 0000000..bf159b9
--- /dev/null
+++ b/filelock/filelock_other.go
@@ -0,0 +1,15 @@
+// +build !darwin,!dragonfly,!freebsd,!linux,!netbsd,!openbsd
+
+package filelock
+
+func lock(f File) error {
+	return nil
+}
+
+func rlock(f File) error {
+	return nil
+}
+
+func unlock(f File) error {
+	return nil
+}
diff --git a/filelock/filelock_unix.go b/filelock/filelock_unix.go
new file mode 100644
index 0000000..7793be1
--- /dev/null
+++ b/filelock/filelock_unix.go
@@ -0,0 +1,33 @@
+// +build darwin dragonfly freebsd linux netbsd openbsd
+
+package filelock
+
+import (
+	"syscall"
+)
+
+func lock(f File) error {
+	return flock(f, syscall.LOCK_EX)
+}
+
+func rlock(f File) error {
+	return flock(f, syscall.LOCK_SH)
+}
+
+func unlock(f File) error {
+	return flock(f, syscall.LOCK_UN)
+}
+
+func flock(f File, how int) error {
+	file, ok := f.(interface{ Fd() uintptr })
+	if !ok {
+		// not a file in file system
+		return nil
+	}
+	for {
+		err := syscall.Flock(int(file.Fd()), how)
+		if err != syscall.EINTR {
+			return err
+		}
+	}
+}
-- 
2.43.0


From 1939fb751525b2dcdf4ad83ad9ccff1e41ceec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 38/65] fix: lock board, article index and article files while
 appending and reading

---
 pttbbs/board.go                  | 6 ++++++
 pttbbs/file.go                   | 6 ++++++
 pttbbs/pttbbs.go                 | 7 +++++++
 pttbbs/pttbss_append_new_line.go | 9 +++++++--
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 3a52714..e3875bf 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -176,6 +176,12 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 	}
 	defer file.Close()
 
+	err = filelock.RLock(file)
+	if err != nil {
+		return nil, err
+	}
+	defer filelock.Unlock(file)
+
 	ret := []*BoardHeader{}
 
 	for {
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 8477f44..a8887a1 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -108,6 +108,12 @@ func OpenFileHeaderFile(filename string) ([]*FileHeader, error) {
 	}
 	defer file.Close()
 
+	err = filelock.RLock(file)
+	if err != nil {
+		return nil, err
+	}
+	defer filelock.Unlock(file)
+
 	ret := []*FileHeader{}
 
 	for {
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index b0cd438..04f1047 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -2,6 +2,7 @@ package pttbbs
 
 import (
 	"github.com/Ptt-official-app/go-bbs"
+	"github.com/Ptt-official-app/go-bbs/filelock"
 
 	"fmt"
 	"io/ioutil"
@@ -151,6 +152,12 @@ func (c *Connector) ReadBoardArticleFile(filename string) ([]byte, error) {
 		return nil, fmt.Errorf("pttbbs: open file error: %v", err)
 	}
 	defer file.Close()
+
+	err = filelock.RLock(file)
+	if err != nil {
+		return nil, fmt.Errorf("pttbbs: lock file error: %v", err)
+	}
+	defer filelock.Unlock(file)
 	buf, err := ioutil.ReadAll(file)
 	if err != nil {
 		return nil, fmt.Errorf("pttbbs: readfile error: %v", err)
diff --git a/pttbbs/pttbss_append_new_line.go b/pttbbs/pttbss_append_new_line.go
index c2106c2..5a8d121 100644
--- a/pttbbs/pttbss_append_new_line.go
+++ b/pttbbs/pttbss_append_new_line.go
@@ -5,17 +5,22 @@ import (
 	"os"
 
 	"github.com/Ptt-official-app/go-bbs"
+	"github.com/Ptt-official-app/go-bbs/filelock"
 )
 
 func (c *Connector) AppendBoardArticleFile(filename string, content []byte) error {
-	// TODO: Lockfile
-
 	f, err := os.OpenFile(filename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		return fmt.Errorf("AppendNewLine: Cannot open file %s, err: %s", filename, err)
 	}
 	defer f.Close()
 
+	err = filelock.Lock(f)
+	if err != nil {
+		return fmt.Errorf("AppendNewLine: Cannot lock file %s, err: %w", filename, err)
+	}
+	defer filelock.Unlock(f)
+
 	_, err = f.Write(content)
 	if err != nil {
 		return fmt.Errorf("AppendNewLine: Write to file (%s) failed, err: %w", filename, err)
-- 
2.43.0


From 2c9a53bf56433cc58f60a33bf61b0a4266af50e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 39/65] fix: appending after an interrupted append keeps
 records aligned

---
 pttbbs/board.go |  5 +++++
 pttbbs/file.go  | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index e3875bf..4863caa 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -228,6 +228,11 @@ func AppendBoardHeaderFileRecord(filename string, newBoardHeader *BoardHeader) e
 		return err
 	}
 
+	err = dropIncompleteRecord(f, BoardHeaderRecordLength)
+	if err != nil {
+		return err
+	}
+
 	if _, err := f.Write(data); err != nil {
 		return err
 	}
diff --git a/pttbbs/file.go b/pttbbs/file.go
index a8887a1..97ca928 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -161,6 +161,11 @@ func AppendFileHeaderFileRecord(filename string, newFileHeader *FileHeader) erro
 		return err
 	}
 
+	err = dropIncompleteRecord(f, 128)
+	if err != nil {
+		return err
+	}
+
 	if _, err := f.Write(data); err != nil {
 		return err
 	}
@@ -275,3 +280,17 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 func (f *FileHeader) IsVotePost() bool {
 	return f.Filemode&FileVote != 0
 }
+
+// dropIncompleteRecord removes the rest of an interrupted append at the end of
+// f, otherwise all records after it are not aligned. f must be locked.
+func dropIncompleteRecord(f *os.File, length int64) error {
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	rest := stat.Size() % length
+	if rest == 0 {
+		return nil
+	}
+	return f.Truncate(stat.Size() - rest)
+}
-- 
2.43.0


From 8ca61efcf3bbcfcc48187f4894c8c2c5237f52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 40/65] fix: removing a board reports truncate error

---
 pttbbs/board.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 4863caa..4edad03 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -288,7 +288,10 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		return fmt.Errorf("fo.Seek for SEEK_CUR error: %v", err)
 	}
 
-	fo.Truncate(size)
+	err = fo.Truncate(size)
+	if err != nil {
+		return fmt.Errorf("fo.Truncate error: %v", err)
+	}
 	filelock.Unlock(fi)
 	return nil
 
-- 
2.43.0


From 7c180259d9aaefb621b2cc28f183e0bc785f8de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 41/65] fix: replace a draft atomically

---
 pttbbs/draft.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index 28b9c39..4834f19 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -3,6 +3,7 @@ package pttbbs
 import (
 	"io/ioutil"
 	"os"
+	"path/filepath"
 )
 
 func (c *Connector) ReadUserDraft(filename string) ([]byte, error) {
@@ -17,5 +18,23 @@ func (c *Connector) DeleteUserDraft(filename string) error {
 }
 
 func (c *Connector) WriteUserDraft(filename string, draft []byte) error {
-	return ioutil.WriteFile(filename, draft, 0644)
+	// write to another file first, so that the draft is never seen half written
+	f, err := ioutil.TempFile(filepath.Dir(filename), ".draft")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(draft)
+	if err == nil {
+		err = f.Chmod(0644)
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
 }
-- 
2.43.0


From 3598921941ca85d9727e12ecf8468010b6b3e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 42/65] fix: only a missing draft or favorites file is empty,
 other errors are reported

---
 pttbbs/draft.go  | 2 +-
 pttbbs/pttbbs.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index 4834f19..ab9c167 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -7,7 +7,7 @@ import (
 )
 
 func (c *Connector) ReadUserDraft(filename string) ([]byte, error) {
-	if _, err := os.Stat(filename); err != nil {
+	if _, err := os.Stat(filename); os.IsNotExist(err) {
 		return []byte{}, nil
 	}
 	return ioutil.ReadFile(filename)
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 04f1047..705c7fd 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -55,7 +55,7 @@ func (c *Connector) GetUserFavoriteRecordsPath(userID string) (string, error) {
 }
 
 func (c *Connector) ReadUserFavoriteRecordsFile(filename string) ([]bbs.FavoriteRecord, error) {
-	if _, err := os.Stat(filename); err != nil {
+	if _, err := os.Stat(filename); os.IsNotExist(err) {
 		return []bbs.FavoriteRecord{}, nil
 	}
 
-- 
2.43.0


From 4aadd7cc4103c7622bea1c5803390c01837dab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 43/65] fix: decoding a record from a short buffer is an error,
 not a panic

---
 formosabbs/file.go | 3 +++
 pttbbs/board.go    | 3 +++
 pttbbs/file.go     | 3 +++
 pttbbs/passwd.go   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index da6e345..5ac811a 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -75,6 +75,9 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 }
 
 func NewFomosaBBSFileHeaderWithByte(data []byte) (*FileHeader, error) {
+	if len(data) < 248 {
+		return nil, io.ErrUnexpectedEOF
+	}
 
 	ret := FileHeader{}
 	ret.Filename = bbs.CstrToString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+44])
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 4edad03..2b2a809 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -298,6 +298,9 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 }
 
 func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
+	if len(data) < BoardHeaderRecordLength {
+		return nil, ErrIndexOutOfBound
+	}
 	ret := BoardHeader{}
 
 	ret.BrdName = big5uaoToUTF8String(bytes.Split(data[PosOfBoardName:PosOfBoardName+IDLength+1], []byte("\x00"))[0])
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 97ca928..7c71a0b 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -219,6 +219,9 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 }
 
 func NewFileHeaderWithByte(data []byte) (*FileHeader, error) {
+	if len(data) < 128 {
+		return nil, ErrIndexOutOfBound
+	}
 
 	ret := FileHeader{}
 	ret.filename = newStringFormCString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+FileNameLength])
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index ee38c36..2756a02 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -239,6 +239,9 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 }
 
 func UnmarshalUserec(data []byte) (*Userec, error) {
+	if len(data) < 512 {
+		return nil, ErrIndexOutOfBound
+	}
 	user := &Userec{}
 	user.Version = binary.LittleEndian.Uint32(data[PosOfPasswdVersion : PosOfPasswdVersion+4])
 	user.userID = newStringFormCString(data[PosOfPasswdUserID : PosOfPasswdUserID+IDLength+1])
-- 
2.43.0


From e06af5616093a968ac5200b10079567beb48f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 44/65] fix: report a capability which the driver does not
 support as an error

---
 bbs.go | 55 ++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/bbs.go b/bbs.go
index 5759fcc..d70b899 100644
--- a/bbs.go
+++ b/bbs.go
@@ -420,11 +420,20 @@ func (db *DB) ReadBoardTreasureFile(boardID string, treasuresID []string, filena
 }
 
 func (db *DB) NewBoardRecord(args map[string]interface{}) (BoardRecord, error) {
-	return db.connector.(WriteBoardConnector).NewBoardRecord(args)
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+	return c.NewBoardRecord(args)
 }
 
 func (db *DB) AddBoardRecord(brd BoardRecord) error {
 
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+
 	path, err := db.connector.GetBoardRecordsPath()
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -432,7 +441,7 @@ func (db *DB) AddBoardRecord(brd BoardRecord) error {
 	}
 	log.Println("path:", path)
 
-	err = db.connector.(WriteBoardConnector).AddBoardRecordFileRecord(path, brd)
+	err = c.AddBoardRecordFileRecord(path, brd)
 	if err != nil {
 		log.Println("bbs: AddBoardRecordFileRecord error:", err)
 		return err
@@ -459,16 +468,25 @@ func (db *DB) RemoveBoardRecord(index uint) error {
 // CreateArticleRecord returns new ArticleRecord with new filename in boardID and owner, date and title.
 // This method will find a usable filename in board and occupy it.
 func (db *DB) CreateArticleRecord(boardID, owner, date, title string) (ArticleRecord, error) {
-	filename, err := db.connector.(WriteArticleConnector).CreateBoardArticleFilename(boardID)
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+	filename, err := c.CreateBoardArticleFilename(boardID)
 	if err != nil {
 		return nil, err
 	}
-	return db.connector.(WriteArticleConnector).NewArticleRecord(filename, owner, date, title)
+	return c.NewArticleRecord(filename, owner, date, title)
 }
 
 // AddArticleRecordFileRecord append article ArticleRecord to boardID
 func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord) error {
 
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+
 	path, err := db.connector.GetBoardArticleRecordsPath(boardID)
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -476,7 +494,7 @@ func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord)
 	}
 	log.Println("path:", path)
 
-	return db.connector.(WriteArticleConnector).AddArticleRecordFileRecord(path, article)
+	return c.AddArticleRecordFileRecord(path, article)
 }
 
 // WriteBoardArticleFile writes content into filename in boardID
@@ -713,14 +731,19 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return nil, err
 	}
 	log.Println("path:", path)
 
-	raw, err := db.connector.(UserDraftConnector).ReadUserDraft(path)
+	raw, err := c.ReadUserDraft(path)
 	if err != nil {
 		return nil, err
 	}
@@ -730,23 +753,33 @@ func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
 func (db *DB) DeleteUserDraft(userID, draftID string) error {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 	log.Println("path:", path)
 
-	return db.connector.(UserDraftConnector).DeleteUserDraft(path)
+	return c.DeleteUserDraft(path)
 }
 
 func (db *DB) WriteUserDraft(userID, draftID string, draftContent UserDraft) error {
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 
 	log.Println("path:", path)
-	return db.connector.(UserDraftConnector).WriteUserDraft(path, draftContent.Raw())
+	return c.WriteUserDraft(path, draftContent.Raw())
 }
-- 
2.43.0


From 7955f7a8eb3f22875a51cf92c665f4ce96d3ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 45/65] fix: the driver registry is safe for concurrent use

---
 bbs.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bbs.go b/bbs.go
index d70b899..6d6dcaf 100644
--- a/bbs.go
+++ b/bbs.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -267,17 +268,23 @@ type UserDraftConnector interface {
 	WriteUserDraft(name string, draft []byte) error
 }
 
-var drivers = make(map[string]Connector)
+var (
+	driversMu sync.RWMutex
+	drivers   = make(map[string]Connector)
+)
 
 func Register(drivername string, connector Connector) {
-	// TODO: Mutex
+	driversMu.Lock()
+	defer driversMu.Unlock()
 	drivers[drivername] = connector
 }
 
 // Open opan a
 func Open(drivername string, dataSourceName string) (*DB, error) {
 
+	driversMu.RLock()
 	c, ok := drivers[drivername]
+	driversMu.RUnlock()
 	if !ok {
 		return nil, fmt.Errorf("bbs: drivername: %v not found", drivername)
 	}
-- 
2.43.0


From a2b17bb4df2912db37b687d17fe2d619267921f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 46/65] fix: opening a second database does not redirect the
 first one

---
 bbs.go           | 12 ++++++++++++
 pttbbs/pttbbs.go |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/bbs.go b/bbs.go
index 6d6dcaf..9b69667 100644
--- a/bbs.go
+++ b/bbs.go
@@ -176,6 +176,14 @@ type Connector interface {
 	ReadBoardArticleFile(name string) ([]byte, error)
 }
 
+// ConnectorFactory is implemented by a driver which keeps the parameters given to
+// Open in its connector, every DB opened with that driver uses its own connector.
+type ConnectorFactory interface {
+
+	// NewConnector return a connector which is not opened yet.
+	NewConnector() Connector
+}
+
 // Driver which implement WriteBoardConnector supports modify board record file.
 type WriteBoardConnector interface {
 
@@ -289,6 +297,10 @@ func Open(drivername string, dataSourceName string) (*DB, error) {
 		return nil, fmt.Errorf("bbs: drivername: %v not found", drivername)
 	}
 
+	if f, ok := c.(ConnectorFactory); ok {
+		c = f.NewConnector()
+	}
+
 	err := c.Open(dataSourceName)
 	if err != nil {
 		return nil, fmt.Errorf("bbs: drivername: %v open error: %v", drivername, err)
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 705c7fd..c4ce7eb 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -18,6 +18,11 @@ func init() {
 	bbs.Register("pttbbs", &Connector{})
 }
 
+// NewConnector return a connector which is not opened yet.
+func (c *Connector) NewConnector() bbs.Connector {
+	return &Connector{}
+}
+
 // Open connect a file directory or SHMs, dataSourceName pointer to bbs home
 // And it can append argument for SHM
 // for example `file:///home/bbs/?UTMP=1993`
-- 
2.43.0


From e79ec84fe7f73d43fdcdef37c371fc2552b850cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 47/65] fix: an access token expires 30 minutes after it is
 issued, not in 1970

---
 serverlet/route_token.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index 67ef4ae..d21744f 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"net/http"
 	"strings"
+	"time"
 
 	"github.com/Ptt-official-app/go-bbs"
 	"github.com/golang-jwt/jwt"
@@ -92,7 +93,7 @@ func getTokenFromRequest(r *http.Request) string {
 
 func newAccessTokenWithUsername(username string) string {
 	claims := &jwt.StandardClaims{
-		ExpiresAt: 30 * 60, // TODO: Setting me in config
+		ExpiresAt: time.Now().Add(30 * time.Minute).Unix(), // TODO: Setting me in config
 		// Issuer:    "test",
 		Subject: username,
 	}
-- 
2.43.0


From 3daab42da5a629221c11e21149099442c79d3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 48/65] fix: verify the access token before showing a user's
 information

---
 serverlet/permissions.go | 24 ++++++++++++++++++++++++
 serverlet/route_token.go | 12 ++++++------
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/serverlet/permissions.go b/serverlet/permissions.go
index e2de0a6..639ebea 100644
--- a/serverlet/permissions.go
+++ b/serverlet/permissions.go
@@ -1,5 +1,11 @@
 package main
 
+import (
+	"fmt"
+
+	"github.com/golang-jwt/jwt"
+)
+
 type permission string
 
 const (
@@ -7,6 +13,24 @@ const (
 	PermissionReadFavorite        permission = "READ_FAVORITE"
 )
 
+// checkTokenPermission returns nil only if token is issued by this server, is not
+// expired, and its subject is the user in userInfo.
 func checkTokenPermission(token string, permissionID []permission, userInfo map[string]string) error {
+	claims := &jwt.StandardClaims{}
+	_, err := jwt.ParseWithClaims(token, claims, func(t *jwt.Token) (interface{}, error) {
+		if t.Method != jwt.SigningMethodES256 {
+			return nil, fmt.Errorf("unexpected signing method: %v", t.Method.Alg())
+		}
+		return jwt.ParseECPublicKeyFromPEM([]byte(tokenPublicKey))
+	})
+	if err != nil {
+		return err
+	}
+	if claims.ExpiresAt == 0 {
+		return fmt.Errorf("token has no expiration time")
+	}
+	if claims.Subject == "" || claims.Subject != userInfo["user_id"] {
+		return fmt.Errorf("permission denied")
+	}
 	return nil
 }
diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index d21744f..a724cae 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -91,6 +91,12 @@ func getTokenFromRequest(r *http.Request) string {
 	return s[1]
 }
 
+// openssl ec -in pkey -pubout
+const tokenPublicKey = `-----BEGIN PUBLIC KEY-----
+MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEV8qJS5x98i0eM+UUiV5qB2JZhT67
+Ojl6/rZ4xKcHM/NLpUJP3wDpeFQfMaMiAKQHoGs6rk5z1l/tUUVjJWrw0A==
+-----END PUBLIC KEY-----`
+
 func newAccessTokenWithUsername(username string) string {
 	claims := &jwt.StandardClaims{
 		ExpiresAt: time.Now().Add(30 * time.Minute).Unix(), // TODO: Setting me in config
@@ -106,12 +112,6 @@ AwEHoUQDQgAEV8qJS5x98i0eM+UUiV5qB2JZhT67Ojl6/rZ4xKcHM/NLpUJP3wDp
 eFQfMaMiAKQHoGs6rk5z1l/tUUVjJWrw0A==
 -----END EC PRIVATE KEY-----`
 
-	// openssl ec -in pkey -pubout
-	// 	publicKey := `-----BEGIN PUBLIC KEY-----
-	// MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEV8qJS5x98i0eM+UUiV5qB2JZhT67
-	// Ojl6/rZ4xKcHM/NLpUJP3wDpeFQfMaMiAKQHoGs6rk5z1l/tUUVjJWrw0A==
-	// -----END PUBLIC KEY-----`
-
 	key, err := jwt.ParseECPrivateKeyFromPEM([]byte(privateKey))
 	if err != nil {
 		log.Println("parse private key failed:", err)
-- 
2.43.0


From b5a241b540ecb903b995e163fa01525016ca375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 49/65] fix: an empty user id does not match an unused user
 record

---
 serverlet/route_token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index a724cae..05d67cf 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -68,6 +68,10 @@ func postToken(w http.ResponseWriter, r *http.Request) {
 }
 
 func findUserecByID(userid string) (bbs.UserRecord, error) {
+	if userid == "" {
+		// an unused record has no user id
+		return nil, fmt.Errorf("user record not found")
+	}
 	for _, it := range userRecs {
 		if userid == it.UserID() {
 			return it, nil
-- 
2.43.0


From fb68fcd565342a5f4afb4c4dd2d457bc84f2f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 50/65] fix: do not log password hashes and user records

---
 serverlet/main.go        | 2 +-
 serverlet/route_token.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/serverlet/main.go b/serverlet/main.go
index c463a6e..c1fe9b9 100644
--- a/serverlet/main.go
+++ b/serverlet/main.go
@@ -44,7 +44,7 @@ func loadPasswdsFile() {
 		log.Println("get user rec error:", err)
 		return
 	}
-	log.Println(userRecs)
+	log.Println("number of user records:", len(userRecs))
 }
 
 func loadBoardFile() {
diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index 05d67cf..9e08808 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -39,7 +39,7 @@ func postToken(w http.ResponseWriter, r *http.Request) {
 
 	}
 
-	log.Println("found user:", userec)
+	log.Println("found user:", userec.UserID())
 	err = verifyPassword(userec, password)
 	if err != nil {
 
@@ -81,7 +81,6 @@ func findUserecByID(userid string) (bbs.UserRecord, error) {
 }
 
 func verifyPassword(userec bbs.UserRecord, password string) error {
-	log.Println("password", userec.HashedPassword())
 	return userec.VerifyPassword(password)
 }
 
-- 
2.43.0


From 4a784aaabcb500e7b82944ff8ef3607b219a36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 51/65] fix: bbstool reports missing arguments and a database
 which can not be opened

---
 cmd/bbstool/articles.go |  8 ++++++++
 cmd/bbstool/main.go     | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cmd/bbstool/articles.go b/cmd/bbstool/articles.go
index ba30bb7..ce254f0 100644
--- a/cmd/bbstool/articles.go
+++ b/cmd/bbstool/articles.go
@@ -12,6 +12,7 @@ func showBoardArticleList() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -24,6 +25,10 @@ func showBoardArticleList() {
 	}
 
 	records, err := db.ReadBoardArticleRecordsFile(boardID)
+	if err != nil {
+		fmt.Println("ReadBoardArticleRecordsFile error:", err)
+		return
+	}
 
 	for _, r := range records {
 		if r.Filename() == "" {
@@ -37,6 +42,7 @@ func addBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -68,6 +74,7 @@ func addBoardArticle() {
 	contentFile, inputFileOk := inputArgs["content_file"].(string)
 	if !contentOk && !inputFileOk {
 		fmt.Println("please provide content or content_file")
+		return
 	}
 
 	if !contentOk {
@@ -104,6 +111,7 @@ func showBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
diff --git a/cmd/bbstool/main.go b/cmd/bbstool/main.go
index 06e2c70..44a0956 100644
--- a/cmd/bbstool/main.go
+++ b/cmd/bbstool/main.go
@@ -220,7 +220,13 @@ func showuserarticlelist() {
 
 	args := parseArgsToMap(flag.Args())
 
-	records, err := bbsDB.GetUserArticleRecordFile(args["user_id"].(string))
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
+
+	records, err := bbsDB.GetUserArticleRecordFile(userID)
 	if err != nil {
 		fmt.Printf("showuserarticlelist: GetUserArticleRecordFile: %v\n", err)
 		return
@@ -249,7 +255,11 @@ func showusercommentlist() {
 	}
 
 	args := parseArgsToMap(flag.Args())
-	userID := args["user_id"].(string)
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
 
 	records, err := bbsDB.GetUserCommentRecordFile(userID)
 	if err != nil {
-- 
2.43.0


From 146c05c89e837f1e4583160ca4e9488a339290a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 52/65] fix: ShmidDs is as large as what shmctl writes on linux

---
 cache/systemvshm_linux.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache/systemvshm_linux.go b/cache/systemvshm_linux.go
index 1ab285e..fffec99 100644
--- a/cache/systemvshm_linux.go
+++ b/cache/systemvshm_linux.go
@@ -30,4 +30,5 @@ type ShmidDs struct {
 	ShmLpid     int32
 	ShmNattach  shmattT
 	shmInternal int64
+	shmReserved int64 // the kernel writes all 112 bytes of shmid64_ds
 }
-- 
2.43.0


From 90617bb3ff1b7d0de50955966a15697884d06fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 53/65] fix: game records and the fields after them in
 userinfo_t are aligned

---
 pttbbs/userinfo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 5fe95fe..4e294c3 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -58,7 +58,7 @@ const (
 	PosOfUserInfoMateID   = PosOfUserInfoTurn + 1
 	PosOfUserInfoColor    = PosOfUserInfoMateID + IDLength + 1
 
-	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1
+	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1 + 1 // aligned to 2 bytes
 	PosOfUserInfoFiveLose       = PosOfUserInfoFiveWin + 2
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
@@ -69,7 +69,7 @@ const (
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
 	PosOfUserInfoGoTie          = PosOfUserInfoGoLose + 2
 
-	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2
+	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2 + 2 // aligned to 4 bytes
 	PosOfUserInfoBrcID  = PosOfUserInfoWithMe + 4
 
 	PosOfUserInfoWBTime = PosOfUserInfoBrcID + 4
-- 
2.43.0


From 5feb3c340bf91d2a5383dfd936c006b2def4011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 54/65] fix: myangel is IDLEN+1 bytes, the byte after it is
 padding

---
 pttbbs/passwd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 2756a02..2e39779 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -303,7 +303,7 @@ func UnmarshalUserec(data []byte) (*Userec, error) {
 	user.Signature = data[PosOfPasswdSignature]
 	user.BadPost = data[PosOfPasswdBadPost]
 	user.DarkChess.Tie = binary.LittleEndian.Uint16(data[PosOfPasswdDarkTie : PosOfPasswdDarkTie+2])
-	user.MyAngel = newStringFormCString(data[PosOfPasswdMyAngel : PosOfPasswdMyAngel+IDLength+1+1])
+	user.MyAngel = newStringFormCString(data[PosOfPasswdMyAngel : PosOfPasswdMyAngel+IDLength+1])
 
 	user.ChessEloRating = binary.LittleEndian.Uint16(data[PosOfPasswdChessEloRating : PosOfPasswdChessEloRating+2])
 	user.WithMe = binary.LittleEndian.Uint32(data[PosOfPasswdWithMe : PosOfPasswdWithMe+4])
@@ -386,7 +386,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	ret[PosOfPasswdSignature] = u.Signature
 	ret[PosOfPasswdBadPost] = u.BadPost
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdDarkTie:PosOfPasswdDarkTie+2], u.DarkChess.Tie)
-	copy(ret[PosOfPasswdMyAngel:PosOfPasswdMyAngel+IDLength+1+1], utf8ToBig5UAOString(u.MyAngel))
+	copy(ret[PosOfPasswdMyAngel:PosOfPasswdMyAngel+IDLength+1], utf8ToBig5UAOString(u.MyAngel))
 
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdChessEloRating:PosOfPasswdChessEloRating+2], u.ChessEloRating)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdWithMe:PosOfPasswdWithMe+4], u.WithMe)
-- 
2.43.0


From d2f5189de802b5f5b57641f3f962c6a57d33659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 55/65] fix: the last byte of justify is written back

---
 pttbbs/passwd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 2e39779..2bc20f5 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -333,7 +333,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfPasswdEmail:PosOfPasswdEmail+EmailSize], utf8ToBig5UAOString(u.Email))
 	copy(ret[PosOfPasswdAddress:PosOfPasswdAddress+AddressSize], utf8ToBig5UAOString(u.Address))
-	copy(ret[PosOfPasswdJustify:PosOfPasswdJustify+RegistrationLength], utf8ToBig5UAOString(u.Justify))
+	copy(ret[PosOfPasswdJustify:PosOfPasswdJustify+RegistrationLength+1], utf8ToBig5UAOString(u.Justify))
 
 	if u.Over18 {
 		ret[PosOfPasswdOver18] = 1
-- 
2.43.0


From e0b5ac6462da952a810f4257c974a74e623cd28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 56/65] fix: Big5 text with the bytes C2 9B is not cut as a
 control sequence

---
 ansi.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ansi.go b/ansi.go
index b7377ae..e01582b 100644
--- a/ansi.go
+++ b/ansi.go
@@ -4,7 +4,9 @@ import (
 	"regexp"
 )
 
-const ansi = "[\u001B\u009B][[\\]()#;?]*(?:(?:(?:[a-zA-Z\\d]*(?:;[a-zA-Z\\d]*)*)?\u0007)|(?:(?:\\d{1,4}(?:;\\d{0,4})*)?[\\dA-PRZcf-ntqry=><~]))"
+// The 8 bit CSI (U+009B) is not one of them: articles are Big5, where its bytes C2 9B
+// are the second and the first byte of two characters.
+const ansi = "\u001B[[\\]()#;?]*(?:(?:(?:[a-zA-Z\\d]*(?:;[a-zA-Z\\d]*)*)?\u0007)|(?:(?:\\d{1,4}(?:;\\d{0,4})*)?[\\dA-PRZcf-ntqry=><~]))"
 
 var re = regexp.MustCompile(ansi)
 
-- 
2.43.0


From e9a5d0b741bb2a9ff63162065720a26355da7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 57/65] fix: an incomplete record is not moved over a complete
 one when a board is removed

---
 pttbbs/board.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 2b2a809..1e529f4 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -268,6 +268,11 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 	if index < 0 || int64(index) >= stat.Size()/BoardHeaderRecordLength {
 		return ErrIndexOutOfBound
 	}
+	// it must not be moved into a complete record
+	err = dropIncompleteRecord(fo, BoardHeaderRecordLength)
+	if err != nil {
+		return fmt.Errorf("fo.Truncate error: %v", err)
+	}
 
 	_, err = fi.Seek(int64((index+1)*BoardHeaderRecordLength), os.SEEK_SET)
 	if err != nil {
-- 
2.43.0


From 2c0f3c27ea4961c7bb523cf7b20c9d7473bcd6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 58/65] fix: the segment stays attached while a value is read
 from it

---
 pttbbs/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 204ba8b..ba00f39 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"runtime"
 
 	"github.com/Ptt-official-app/go-bbs/cache"
 )
@@ -314,6 +315,8 @@ func NewCache(connectionString string, settings *MemoryMappingSetting) (*Cache,
 // Version returns cache (SHM) version of pttbbs, it will be 4842 on pttbbs version
 // 4d56e77 (2009/09 ~ )
 func (c *Cache) Version() uint32 {
+	// the memory is detached when c is collected
+	defer runtime.KeepAlive(c)
 	// Should be 4842
 	return binary.LittleEndian.Uint32(c.Bytes()[c.posOfVersion : c.posOfVersion+4])
 }
@@ -322,6 +325,7 @@ func (c *Cache) Version() uint32 {
 // uid means the index in PASSWD file, start with 0. It returns empty string if
 // there is no such uid.
 func (c *Cache) UserID(uid int) string {
+	defer runtime.KeepAlive(c)
 	if uid < 0 || uid >= c.MaxUsers {
 		return ""
 	}
@@ -332,6 +336,7 @@ func (c *Cache) UserID(uid int) string {
 // Money returns the money user have with specific uid, uid start with 0.
 // It returns 0 if there is no such uid.
 func (c *Cache) Money(uid int) int32 {
+	defer runtime.KeepAlive(c)
 	if uid < 0 || uid >= c.MaxUsers {
 		return 0
 	}
@@ -342,6 +347,7 @@ func (c *Cache) Money(uid int) int32 {
 // UserInfo returns the online user at specific index in utmp, it returns nil if the
 // index is out of range.
 func (c *Cache) UserInfo(uid int) *UserInfoCache {
+	defer runtime.KeepAlive(c)
 	if uid < 0 || uid >= (len(c.Bytes())-c.posOfUserInfo)/c.lenOfUserInfo {
 		return nil
 	}
-- 
2.43.0


From a21330291e16fee44dfaf7631c117576e3f7a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 59/65] fix: remove the sequences that save, restore and scroll
 the cursor

---
 ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi.go b/ansi.go
index e01582b..ced529a 100644
--- a/ansi.go
+++ b/ansi.go
@@ -6,7 +6,7 @@ import (
 
 // The 8 bit CSI (U+009B) is not one of them: articles are Big5, where its bytes C2 9B
 // are the second and the first byte of two characters.
-const ansi = "\u001B[[\\]()#;?]*(?:(?:(?:[a-zA-Z\\d]*(?:;[a-zA-Z\\d]*)*)?\u0007)|(?:(?:\\d{1,4}(?:;\\d{0,4})*)?[\\dA-PRZcf-ntqry=><~]))"
+const ansi = "\u001B[[\\]()#;?]*(?:(?:(?:[a-zA-Z\\d]*(?:;[a-zA-Z\\d]*)*)?\u0007)|(?:(?:\\d{1,4}(?:;\\d{0,4})*)?[\\dA-PR-TZcdf-nq-uy=><~]))"
 
 var re = regexp.MustCompile(ansi)
 
-- 
2.43.0


From 850f7698b9b2f5edf2ed0b64f4b183b49f703855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 60/65] fix: store a time which was never set as 0 in accounts,
 online users and favorites

---
 pttbbs/fav.go      |  2 +-
 pttbbs/passwd.go   | 16 ++++++++--------
 pttbbs/userinfo.go |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index 0ae9e6f..562b89f 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -455,7 +455,7 @@ func (favbi *FavBoardItem) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.BoardID)
 	c += size
 
-	binary.LittleEndian.PutUint32(ret[c:c+size], uint32(favbi.LastVisit.Unix()))
+	binary.LittleEndian.PutUint32(ret[c:c+size], time4(favbi.LastVisit))
 	c += size
 
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.Attr)
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 2bc20f5..40be89d 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -326,8 +326,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdUserLevel:PosOfPasswdUserLevel+4], u.UserLevel)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumLoginDays:PosOfPasswdNumLoginDays+4], u.numLoginDays)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumPosts:PosOfPasswdNumPosts+4], u.numPosts)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], uint32(u.firstLogin.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], uint32(u.lastLogin.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], time4(u.firstLogin))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], time4(u.lastLogin))
 	copy(ret[PosOfPasswdLastHost:PosOfPasswdLastHost+IPV4Length+1], utf8ToBig5UAOString(u.lastHost))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdMoney:PosOfPasswdMoney+4], uint32(u.money))
 
@@ -355,11 +355,11 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
 
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], uint32(u.TimePlayAngel.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], time4(u.LastSeen))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], time4(u.TimeSetAngel))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], time4(u.TimePlayAngel))
 
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], uint32(u.LastSong.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], time4(u.LastSong))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLoginView:PosOfPasswdLoginView+4], u.LoginView)
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdLawCounter:PosOfPasswdLawCounter+2], u.ViolateLaw)
 
@@ -390,8 +390,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdChessEloRating:PosOfPasswdChessEloRating+2], u.ChessEloRating)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdWithMe:PosOfPasswdWithMe+4], u.WithMe)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], uint32(u.TimeRemoveBadPost.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], uint32(u.TimeViolateLaw.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], time4(u.TimeRemoveBadPost))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], time4(u.TimeViolateLaw))
 
 	return ret, nil
 }
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 4e294c3..f53ec79 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -327,7 +327,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Win:PosOfUserInfoConn6Win+2], u.Conn6.Win)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], uint32(u.LastAct.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], time4(u.LastAct))
 	ret[PosOfUserInfoAlerts] = u.Alerts
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Lose:PosOfUserInfoConn6Lose+2], u.Conn6.Lose)
 
@@ -370,7 +370,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWithMe:PosOfUserInfoWithMe+4], u.WithMe)
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoBrcID:PosOfUserInfoBrcID+4], u.brcID)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], uint32(u.wbTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], time4(u.wbTime))
 
 	return ret
 
-- 
2.43.0


From 3377734b650b815aafae6c5b47c7ee3ad9393213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 61/65] fix: close the mapped file when its size cannot be read

---
 cache/mmap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache/mmap.go b/cache/mmap.go
index 4bef7d6..542a88b 100644
--- a/cache/mmap.go
+++ b/cache/mmap.go
@@ -46,6 +46,7 @@ func openFile(f *os.File) (*Mmap, error) {
 	stat, err := f.Stat()
 	if err != nil {
 		// fmt.Println("stat error", err)
+		f.Close()
 		return nil, fmt.Errorf("stat error: %w", err)
 	}
 
-- 
2.43.0


From f0ad16930328532ec0cf132f706b418466744b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:44 +0000
Subject: [PATCH 62/65] fix: tell a missing file by the error, not by a text
 its path may contain

---
 bbs.go           | 5 +++--
 pttbbs/pttbbs.go | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/bbs.go b/bbs.go
index 9b69667..e7ad5fe 100644
--- a/bbs.go
+++ b/bbs.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"os"
 	"strings"
 	"sync"
 	"time"
@@ -377,7 +378,7 @@ func (db *DB) ReadBoardArticleRecordsFile(boardID string) ([]ArticleRecord, erro
 
 	recs, err := db.connector.ReadArticleRecordsFile(path)
 	if err != nil {
-		if strings.Contains(err.Error(), "no such file or directory") {
+		if errors.Is(err, os.ErrNotExist) {
 			return []ArticleRecord{}, nil
 		}
 		log.Println("bbs: ReadArticleRecordsFile error:", err)
@@ -692,7 +693,7 @@ func (db *DB) GetBoardUserCommentRecord(boardID, userID string) (recs []UserComm
 		}
 		crs, err := db.GetBoardArticleCommentRecords(boardID, ar)
 		if err != nil {
-			if strings.Contains(err.Error(), "no such file or directory") {
+			if errors.Is(err, os.ErrNotExist) {
 				// skip deleted article
 				continue
 			}
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index c4ce7eb..8c2658c 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -154,18 +154,18 @@ func (c *Connector) GetBoardTreasureFilePath(boardID string, treasureID []string
 func (c *Connector) ReadBoardArticleFile(filename string) ([]byte, error) {
 	file, err := os.Open(filename)
 	if err != nil {
-		return nil, fmt.Errorf("pttbbs: open file error: %v", err)
+		return nil, fmt.Errorf("pttbbs: open file error: %w", err)
 	}
 	defer file.Close()
 
 	err = filelock.RLock(file)
 	if err != nil {
-		return nil, fmt.Errorf("pttbbs: lock file error: %v", err)
+		return nil, fmt.Errorf("pttbbs: lock file error: %w", err)
 	}
 	defer filelock.Unlock(file)
 	buf, err := ioutil.ReadAll(file)
 	if err != nil {
-		return nil, fmt.Errorf("pttbbs: readfile error: %v", err)
+		return nil, fmt.Errorf("pttbbs: readfile error: %w", err)
 	}
 	return buf, err
 }
-- 
2.43.0


From f8919681c8f6f32914548fefbb20b266a2b7d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:04 +0000
Subject: [PATCH 63/65] fix: a draft keeps its permissions and link, a new one
 obeys the umask

---
 pttbbs/draft.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index ab9c167..8b7accc 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -1,7 +1,9 @@
 package pttbbs
 
 import (
+	"fmt"
 	"io/ioutil"
+	"math/rand"
 	"os"
 	"path/filepath"
 )
@@ -18,14 +20,27 @@ func (c *Connector) DeleteUserDraft(filename string) error {
 }
 
 func (c *Connector) WriteUserDraft(filename string, draft []byte) error {
+	// a draft which is a link is replaced where the link points to
+	target, err := filepath.EvalSymlinks(filename)
+	if err == nil {
+		filename = target
+	} else if !os.IsNotExist(err) {
+		return err
+	}
 	// write to another file first, so that the draft is never seen half written
-	f, err := ioutil.TempFile(filepath.Dir(filename), ".draft")
+	f, err := createDraftTempFile(filepath.Dir(filename))
 	if err != nil {
 		return err
 	}
-	_, err = f.Write(draft)
+	// the permissions of an existing draft are kept
+	stat, err := os.Stat(filename)
+	if err == nil {
+		err = f.Chmod(stat.Mode().Perm())
+	} else if os.IsNotExist(err) {
+		err = nil
+	}
 	if err == nil {
-		err = f.Chmod(0644)
+		_, err = f.Write(draft)
 	}
 	if cerr := f.Close(); err == nil {
 		err = cerr
@@ -38,3 +53,14 @@ func (c *Connector) WriteUserDraft(filename string, draft []byte) error {
 	}
 	return err
 }
+
+// createDraftTempFile is like ioutil.TempFile, with the permissions of a new draft.
+func createDraftTempFile(dir string) (*os.File, error) {
+	for {
+		name := filepath.Join(dir, fmt.Sprintf(".draft%d", rand.Int63()))
+		f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
+		if !os.IsExist(err) {
+			return f, err
+		}
+	}
+}
-- 
2.43.0


From f4def7e4823d163c30e949cd025a1a6b6413a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 64/65] fix: remove terminal codes with any final letter and
 numbers of any length

---
 ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi.go b/ansi.go
index ced529a..697b863 100644
--- a/ansi.go
+++ b/ansi.go
@@ -6,7 +6,7 @@ import (
 
 // The 8 bit CSI (U+009B) is not one of them: articles are Big5, where its bytes C2 9B
 // are the second and the first byte of two characters.
-const ansi = "\u001B[[\\]()#;?]*(?:(?:(?:[a-zA-Z\\d]*(?:;[a-zA-Z\\d]*)*)?\u0007)|(?:(?:\\d{1,4}(?:;\\d{0,4})*)?[\\dA-PR-TZcdf-nq-uy=><~]))"
+const ansi = "\u001B[[\\]()#;?]*(?:(?:(?:[a-zA-Z\\d]*(?:;[a-zA-Z\\d]*)*)?\u0007)|(?:(?:\\d+(?:;\\d*)*)?[\\dA-Za-z=><~]))"
 
 var re = regexp.MustCompile(ansi)
 
-- 
2.43.0


From 760bb7dd1156f834feae09fcd3eb1a001f4abc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:16 +0000
Subject: [PATCH 65/65] fix: a draft removed while it is read is read as none

---
 pttbbs/draft.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index 8b7accc..a30b2c3 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -9,10 +9,11 @@ import (
 )
 
 func (c *Connector) ReadUserDraft(filename string) ([]byte, error) {
-	if _, err := os.Stat(filename); os.IsNotExist(err) {
+	draft, err := ioutil.ReadFile(filename)
+	if os.IsNotExist(err) {
 		return []byte{}, nil
 	}
-	return ioutil.ReadFile(filename)
+	return draft, err
 }
 
 func (c *Connector) DeleteUserDraft(filename string) error {
-- 
2.43.0

