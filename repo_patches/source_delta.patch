From f03a84dd353bb6c361d13d5db726c52e8b0a8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:56 +0000
Subject: [PATCH 01/52] fix: refuse empty and unparsable names in database
 writes

An add, delete or rename with an empty name, an empty new name, or an
import with an unparsable name made the process panic.
---
 pkg/ldbbolt/ldbbolt.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 2d6f554..6e7b803 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -49,6 +49,7 @@ var (
 	ErrEntryAlreadyExists = errors.New("entry already exists")
 	ErrEntryNotFound      = errors.New("entry does not exist")
 	ErrNonLeafEntry       = errors.New("entry is not a leaf entry")
+	ErrEmptyDN            = errors.New("empty DN")
 )
 
 func (bdb *LdbBolt) Configure(logger logrus.FieldLogger, baseDN, dbfile string, options *bolt.Options) error {
@@ -180,7 +181,13 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 		panic(err)
 	}
 
-	dn, _ := ldap.ParseDN(e.DN)
+	dn, err := ldap.ParseDN(e.DN)
+	if err != nil {
+		return err
+	}
+	if len(dn.RDNs) == 0 {
+		return ErrEmptyDN
+	}
 	parentDN := &ldap.DN{
 		RDNs: dn.RDNs[1:],
 	}
@@ -191,7 +198,7 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 	}
 
 	nParentDN := ldapdn.Normalize(parentDN)
-	err := bdb.db.Update(func(tx *bolt.Tx) error {
+	err = bdb.db.Update(func(tx *bolt.Tx) error {
 		id2entry := tx.Bucket([]byte("id2entry"))
 		id := bdb.getIDByDN(tx, nDN)
 		if id != 0 {
@@ -224,6 +231,9 @@ func (bdb *LdbBolt) EntryDelete(dn string) error {
 	if err != nil {
 		return err
 	}
+	if len(parsed.RDNs) == 0 {
+		return ErrEmptyDN
+	}
 	pparentDN := &ldap.DN{
 		RDNs: parsed.RDNs[1:],
 	}
@@ -317,10 +327,17 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		return err
 	}
 
+	if len(olddn.RDNs) == 0 {
+		return ErrEmptyDN
+	}
+
 	newrdn, err := ldap.ParseDN(req.NewRDN)
 	if err != nil {
 		return err
 	}
+	if len(newrdn.RDNs) == 0 {
+		return ErrEmptyDN
+	}
 
 	var newDN ldap.DN
 
-- 
2.43.0


From c09492cce0b95f861bdf2fe2b7456c6acc2ad26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:32 +0000
Subject: [PATCH 02/52] fix: compare names part by part when applying the
 search scope

A one-level search split names at every comma, also at escaped ones, so
entries with a comma in their name were left out or made the search fail.
A subtree search did not check the scope at all.
---
 pkg/ldapserver/filter.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 1ec4cc1..d58fffa 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -11,6 +11,8 @@ import (
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
 	"golang.org/x/text/cases"
+
+	"github.com/libregraph/idm/pkg/ldapdn"
 )
 
 const (
@@ -158,21 +160,22 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 	}
 	switch scope {
 	case ldap.ScopeWholeSubtree: // The scope is constrained to the entry named by baseObject and to all its subordinates.
+		if len(parsedDn.RDNs) < len(parsedBaseDn.RDNs) {
+			return false, ldap.LDAPResultSuccess
+		}
+		suffixDn := &ldap.DN{RDNs: parsedDn.RDNs[len(parsedDn.RDNs)-len(parsedBaseDn.RDNs):]}
+		if !sameDN(suffixDn, parsedBaseDn) {
+			return false, ldap.LDAPResultSuccess
+		}
 	case ldap.ScopeBaseObject: // The scope is constrained to the entry named by baseObject.
-		if !parsedDn.EqualFold(parsedBaseDn) {
+		if !sameDN(parsedDn, parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
 		}
 	case ldap.ScopeSingleLevel: // The scope is constrained to the immediate subordinates of the entry named by baseObject.
-		parts := strings.Split(entry.DN, ",")
-		if len(parts) < 2 && !parsedDn.EqualFold(parsedBaseDn) {
+		if len(parsedDn.RDNs) < 1 {
 			return false, ldap.LDAPResultSuccess
 		}
-		subDn := strings.Join(parts[1:], ",")
-		parsedSubDn, err := ldap.ParseDN(subDn)
-		if err != nil {
-			return false, ldap.LDAPResultOperationsError
-		}
-		if !parsedSubDn.EqualFold(parsedBaseDn) {
+		if !sameDN(&ldap.DN{RDNs: parsedDn.RDNs[1:]}, parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
 		}
 	}
@@ -180,6 +183,11 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 	return true, ldap.LDAPResultSuccess
 }
 
+// sameDN returns true if both DNs name the same entry.
+func sameDN(a, b *ldap.DN) bool {
+	return a.EqualFold(b) || ldapdn.Normalize(a) == ldapdn.Normalize(b)
+}
+
 func ServerFilterAttributes(attributes []string, entry *ldap.Entry) (LDAPResultCode, error) {
 	// attributes
 	if len(attributes) > 1 || (len(attributes) == 1 && len(attributes[0]) > 0) {
-- 
2.43.0


From c69fccf9f11cd3706ddffaf9cffeb3ad6210af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:47 +0000
Subject: [PATCH 03/52] fix: let a delete change of a modify see the changes
 before it

A delete change was applied to the values the entry had before the whole
request, so values added by earlier changes of the same request were lost.
---
 pkg/ldapentry/ldapentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index d2e83ad..aa2de08 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -65,7 +65,7 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 					}
 				}
 			}
-			newValues := entryApplyModDelete(old.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
+			newValues := entryApplyModDelete(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
 		}
 	}
-- 
2.43.0


From 2eb0ce1a06bfc10bea73fc89c67c5b063a6a6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:12 +0000
Subject: [PATCH 04/52] fix: escape the attribute type when normalizing names

A name whose attribute type contained escaped separators was normalized to
the name of a different entry and could be used to address it.
---
 pkg/ldapdn/ldapdn.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapdn/ldapdn.go b/pkg/ldapdn/ldapdn.go
index 6cff7cc..116ab2b 100644
--- a/pkg/ldapdn/ldapdn.go
+++ b/pkg/ldapdn/ldapdn.go
@@ -3,6 +3,7 @@ package ldapdn
 import (
 	"bytes"
 	"encoding/hex"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
 	"golang.org/x/text/cases"
@@ -25,12 +26,19 @@ func Normalize(dn *ldap.DN) string {
 			} else if r > 0 {
 				nDN += ","
 			}
-			nDN = nDN + caseFold.String(ava.Type) + "=" + encodeRDNValue(caseFold.String(ava.Value))
+			nDN = nDN + encodeRDNType(caseFold.String(ava.Type)) + "=" + encodeRDNValue(caseFold.String(ava.Value))
 		}
 	}
 	return nDN
 }
 
+// encodeRDNType applies the DN escaping rules to the supplied attribute type.
+// In addition to what needs escaping in values, this also is the case for the
+// equals sign.
+func encodeRDNType(rDNType string) string {
+	return strings.ReplaceAll(encodeRDNValue(rDNType), "=", "\\=")
+}
+
 // encodeRDNValue applies the DN escaping rules (RFC4514) to the supplied
 // string (the value part of an RDN). Returns the escaped string.
 // Note: This function is taken from https://github.com/go-ldap/ldap/pull/104
-- 
2.43.0


From e2cbe10f970b3412e6948c8945980f75690bfce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:33 +0000
Subject: [PATCH 05/52] fix: refuse a rename whose new RDN has several
 components

Only the first component was used and the rest was silently dropped.
---
 pkg/ldbbolt/ldbbolt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 6e7b803..7fc580b 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -50,6 +50,7 @@ var (
 	ErrEntryNotFound      = errors.New("entry does not exist")
 	ErrNonLeafEntry       = errors.New("entry is not a leaf entry")
 	ErrEmptyDN            = errors.New("empty DN")
+	ErrInvalidNewRDN      = errors.New("new RDN has more than one component")
 )
 
 func (bdb *LdbBolt) Configure(logger logrus.FieldLogger, baseDN, dbfile string, options *bolt.Options) error {
@@ -338,6 +339,10 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 	if len(newrdn.RDNs) == 0 {
 		return ErrEmptyDN
 	}
+	// a new RDN names a single level, anything more would be dropped below
+	if len(newrdn.RDNs) > 1 {
+		return ErrInvalidNewRDN
+	}
 
 	var newDN ldap.DN
 
-- 
2.43.0


From 577eb767b40946576b9f932e1492aa630e004883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:47 +0000
Subject: [PATCH 06/52] fix: refuse to rename the base entry

A base entry without children could be renamed, which put it outside of
the configured tree where nothing can be added or reached any more.
---
 pkg/ldbbolt/ldbbolt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 7fc580b..cf8f794 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -51,6 +51,7 @@ var (
 	ErrNonLeafEntry       = errors.New("entry is not a leaf entry")
 	ErrEmptyDN            = errors.New("empty DN")
 	ErrInvalidNewRDN      = errors.New("new RDN has more than one component")
+	ErrRenameBase         = errors.New("base entry cannot be renamed")
 )
 
 func (bdb *LdbBolt) Configure(logger logrus.FieldLogger, baseDN, dbfile string, options *bolt.Options) error {
@@ -353,6 +354,11 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		flatNewDN := ldapdn.Normalize(&newDN)
 		flatOldDN := ldapdn.Normalize(olddn)
 
+		// the renamed base entry would end up outside of the database tree
+		if flatOldDN == bdb.base {
+			return ErrRenameBase
+		}
+
 		// error out if there is an entry with the new name already
 		if id := bdb.getIDByDN(tx, flatNewDN); id != 0 {
 			return ErrEntryAlreadyExists
-- 
2.43.0


From aa98f69cf7817eb43b691abf1a6ec62d72adb036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:51 +0000
Subject: [PATCH 07/52] fix: refuse searches of the database by clients that
 have not bound

The database handler answered any search, also on connections without a
successful bind and with anonymous access disabled. Apply the same rule as
the LDIF handler: anonymous requests only if enabled and from loopback.
---
 server/handler/boltdb/handler.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index 4f192fb..f3b25f4 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -294,6 +294,15 @@ func (h *boltdbHandler) Search(boundDN string, req *ldap.SearchRequest, conn net
 		"attrs":  req.Attributes,
 	})
 
+	if boundDN == "" {
+		if err := h.validateAnonymous(conn); err != nil {
+			logger.WithError(err).Debugln("ldap search request rejected")
+			return ldapserver.ServerSearchResult{
+				ResultCode: ldap.LDAPResultInsufficientAccessRights,
+			}, err
+		}
+	}
+
 	logger.Debug("Calling boltdb search")
 	entries, _ := h.bdb.Search(req.BaseDN, req.Scope)
 	logger.Debugf("boltdb search returned %d entries", len(entries))
@@ -325,6 +334,19 @@ func (h *boltdbHandler) Reload(ctx context.Context) error {
 	return nil
 }
 
+// validateAnonymous checks whether the client of the given connection may act
+// without having bound with a password.
+func (h *boltdbHandler) validateAnonymous(conn net.Conn) error {
+	if !h.allowLocalAnonymousBind {
+		return errors.New("anonymous access not allowed")
+	}
+	host, _, _ := net.SplitHostPort(conn.RemoteAddr().String())
+	if !net.ParseIP(host).IsLoopback() {
+		return errors.New("anonymous access rejected")
+	}
+	return nil
+}
+
 func (h *boltdbHandler) writeAllowed(boundDN string) bool {
 	if h.adminDN != "" && h.adminDN == boundDN {
 		return true
-- 
2.43.0


From cd22640ddb486836faa2591da76d285af76d34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:01 +0000
Subject: [PATCH 08/52] fix: allow the anonymous bind to the database only from
 loopback

The option is documented to allow local clients only, which the LDIF
handler already checks.
---
 server/handler/boltdb/handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index f3b25f4..986f280 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -125,6 +125,10 @@ func (h *boltdbHandler) Bind(bindDN, bindSimplePw string, conn net.Conn) (ldapse
 			logger.Debugln("ldap anonymous Bind disabled")
 			return ldap.LDAPResultInvalidCredentials, nil
 		} else if bindSimplePw == "" {
+			if err := h.validateAnonymous(conn); err != nil {
+				logger.WithError(err).Debugln("ldap anonymous Bind rejected")
+				return ldap.LDAPResultInvalidCredentials, nil
+			}
 			return ldap.LDAPResultSuccess, nil
 		}
 	}
-- 
2.43.0


From f3b614d8556032d975d60c6778b6b165d0b7fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:02 +0000
Subject: [PATCH 09/52] fix: make the connection anonymous again after a failed
 bind

The identity of an earlier successful bind stayed in effect.
---
 pkg/ldapserver/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 0ecab75..9f79452 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -293,6 +293,8 @@ handler:
 
 		case ldap.ApplicationBindRequest:
 			server.Stats.countBinds(1)
+			// a bind ends the previous authentication, also when it fails
+			boundDN = ""
 			ldapResultCode := HandleBindRequest(req, server.BindFns, conn)
 			if ldapResultCode == ldap.LDAPResultSuccess {
 				boundDN, ok = req.Children[1].Value.(string)
-- 
2.43.0


From 8d995d29c2be7dc70fa4391f4bc2a8ca6f7593f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:15 +0000
Subject: [PATCH 10/52] fix: do not crash when a password change is refused
 without a message

Any user asking for a password change of somebody else ended the process.
---
 pkg/ldapserver/extended.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/extended.go b/pkg/ldapserver/extended.go
index 83ad790..751f27c 100644
--- a/pkg/ldapserver/extended.go
+++ b/pkg/ldapserver/extended.go
@@ -33,7 +33,9 @@ func HandleExtendedRequest(req *ber.Packet, boundDN string, server *Server, conn
 		msg := ""
 		if err != nil {
 			if lerr, ok := err.(*ldap.Error); ok {
-				msg = lerr.Err.Error()
+				if lerr.Err != nil {
+					msg = lerr.Err.Error()
+				}
 				resCode = LDAPResultCode(lerr.ResultCode)
 			} else {
 				msg = err.Error()
-- 
2.43.0


From 3e22ab3d45ef6b3c7595cb3a4fa79510118f8ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:37 +0000
Subject: [PATCH 11/52] fix: return the generated password instead of its hash

A password change without a new password answered with the stored hash, so
that nobody knew the password.
---
 pkg/ldapserver/pwmodifyexop.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index 8d71965..c2efffc 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -49,7 +49,8 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 		}
 		passwordGenerated = true
 	}
-	pwReq.NewPassword, err = ldappassword.Hash(pwReq.NewPassword, "{ARGON2}")
+	newPassword := pwReq.NewPassword
+	pwReq.NewPassword, err = ldappassword.Hash(newPassword, "{ARGON2}")
 	if err != nil {
 		return nil, ldap.NewError(ldap.LDAPResultOperationsError, err)
 	}
@@ -77,7 +78,7 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 	var response *ber.Packet
 	if passwordGenerated {
 		response = ber.NewSequence("PasswdModifyResponseValue")
-		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, pwReq.NewPassword, "genPasswd"))
+		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, newPassword, "genPasswd"))
 	}
 	return response, nil
 }
-- 
2.43.0


From 1540492bc891fa61e43f4500f03a8259afd93e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:52 +0000
Subject: [PATCH 12/52] fix: accept normalized names of entries with special
 letters in modify

Names with letters like a sharp s have a normal form that is not equal
under simple case folding. Users with such names could not change their
own password.
---
 pkg/ldapentry/ldapentry.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index aa2de08..7bbde48 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -5,6 +5,8 @@ import (
 
 	"github.com/go-ldap/ldap/v3"
 	"golang.org/x/text/cases"
+
+	"github.com/libregraph/idm/pkg/ldapdn"
 )
 
 func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry, err error) {
@@ -18,7 +20,7 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 		return nil, err
 	}
 	// This shouldn't happen if we ge here (TM)
-	if !oldDN.EqualFold(modDN) {
+	if !oldDN.EqualFold(modDN) && ldapdn.Normalize(oldDN) != ldapdn.Normalize(modDN) {
 		return nil, ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("DNs do not match"))
 	}
 
-- 
2.43.0


From 24e076a856132766b29e0ae2b55999be1ba93f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:15 +0000
Subject: [PATCH 13/52] fix: reject empty and truncated password hashes instead
 of panicking

Checking the old password of a password change against such a value ended
the process.
---
 pkg/ldappassword/ldappassword.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index d4c801c..6362178 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -21,6 +21,9 @@ import (
 var Argon2DefaultParams = argon2id.DefaultParams
 
 func Validate(password string, hash string) (bool, error) {
+	if hash == "" {
+		return false, fmt.Errorf("empty password hash")
+	}
 	algorithm := ""
 	if hash[0] == '{' {
 		algorithmEnd := strings.Index(hash[0:], "}")
@@ -51,6 +54,9 @@ func Validate(password string, hash string) (bool, error) {
 		return true, nil
 
 	case "{CRYPT}":
+		if len(hash) < 2 {
+			return false, fmt.Errorf("crypt error: hash too short")
+		}
 		// By default the salt is a two character string.
 		salt := hash[:2]
 		if hash[0] == '$' {
@@ -74,6 +80,9 @@ func Validate(password string, hash string) (bool, error) {
 		if err != nil {
 			return false, fmt.Errorf("ssha error: %w", err)
 		}
+		if len(decodedBytes) < 4 {
+			return false, fmt.Errorf("ssha error: hash too short")
+		}
 		salt := decodedBytes[len(decodedBytes)-4:]
 		h := sha1.New() //nolint,gosec
 		h.Write([]byte(password))
-- 
2.43.0


From b2b645b1ee573f86d2f95ced8b1ce20a333ae81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:33 +0000
Subject: [PATCH 14/52] fix: do not ignore what follows a NUL byte when
 checking crypt passwords

A password followed by a NUL byte and anything else was accepted.
---
 pkg/ldappassword/ldappassword.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index 6362178..d745429 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -57,6 +57,10 @@ func Validate(password string, hash string) (bool, error) {
 		if len(hash) < 2 {
 			return false, fmt.Errorf("crypt error: hash too short")
 		}
+		// crypt only looks at the part before the first NUL.
+		if strings.IndexByte(password, 0) >= 0 {
+			return false, fmt.Errorf("invalid credentials")
+		}
 		// By default the salt is a two character string.
 		salt := hash[:2]
 		if hash[0] == '$' {
-- 
2.43.0


From 1edf4d69e809ef0960c24c81ee827937e507afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:46 +0000
Subject: [PATCH 15/52] fix: reject argon2 hashes with impossible parameters
 instead of panicking

The key derivation panics when asked for no iterations, threads or key
bytes. Checking the old password of a password change against such a value
ended the process.
---
 pkg/ldappassword/ldappassword.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index d745429..58539d3 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -44,6 +44,13 @@ func Validate(password string, hash string) (bool, error) {
 	case "{ARGON2}":
 		// Follows the format used by the Argon2 reference C implementation and looks like this:
 		// $argon2id$v=19$m=65536,t=3,p=2$c29tZXNhbHQ$RdescudvJCsgt3ub+b+dWRWJTmaaJObG
+		params, _, _, err := argon2id.DecodeHash(hash)
+		if err != nil {
+			return false, fmt.Errorf("argon2 error: %w", err)
+		}
+		if params.Iterations < 1 || params.Parallelism < 1 || params.KeyLength < 1 {
+			return false, fmt.Errorf("argon2 error: invalid parameters")
+		}
 		match, err := argon2id.ComparePasswordAndHash(password, hash)
 		if err != nil {
 			return false, fmt.Errorf("argon2 error: %w", err)
-- 
2.43.0


From 1b72930d5d1c11a38ac2e734e7fa27360cf14a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:33 +0000
Subject: [PATCH 16/52] fix: return an attribute once when it is requested
 several times

A search for '*' and a named attribute, or for the same attribute twice,
got the attribute and its values several times.
---
 pkg/ldapserver/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index 992707d..ab9224a 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -164,6 +164,7 @@ func filterAttributes(entry *ldap.Entry, attributes []string) (*ldap.Entry, erro
 		for _, requested := range attributes {
 			if requested == "*" || strings.EqualFold(attr.Name, requested) {
 				newAttributes = append(newAttributes, attr)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 6cd5118c9c17ef208a768eab2ebb51fbe7a69d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:47 +0000
Subject: [PATCH 17/52] fix: match all parts of a substring filter

Only the first part of filters like (cn=a*b*c) was looked at.
---
 pkg/ldapserver/filter.go | 51 +++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index d58fffa..4a4d920 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -112,25 +112,15 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 			return false, ldap.LDAPResultOperationsError
 		}
 		attribute := f.Children[0].Value.(string)
-		bytes := f.Children[1].Children[0].Data.Bytes()
-		value := casefold.String(string(bytes))
+		parts := f.Children[1].Children
+		if len(parts) == 0 {
+			return false, ldap.LDAPResultOperationsError
+		}
 		for _, a := range entry.Attributes {
 			if strings.EqualFold(a.Name, attribute) {
 				for _, v := range a.Values {
-					v = casefold.String(v)
-					switch f.Children[1].Children[0].Tag {
-					case FilterSubstringsInitial:
-						if strings.HasPrefix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsAny:
-						if strings.Contains(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsFinal:
-						if strings.HasSuffix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
+					if matchSubstrings(casefold.String(v), parts) {
+						return true, ldap.LDAPResultSuccess
 					}
 				}
 			}
@@ -148,6 +138,35 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 	return false, ldap.LDAPResultSuccess
 }
 
+// matchSubstrings returns true if the (case folded) value consists of all of
+// the parts of a substring filter, in order and without overlap.
+func matchSubstrings(v string, parts []*ber.Packet) bool {
+	for _, part := range parts {
+		value := casefold.String(string(part.Data.Bytes()))
+		switch part.Tag {
+		case FilterSubstringsInitial:
+			if !strings.HasPrefix(v, value) {
+				return false
+			}
+			v = v[len(value):]
+		case FilterSubstringsAny:
+			i := strings.Index(v, value)
+			if i < 0 {
+				return false
+			}
+			v = v[i+len(value):]
+		case FilterSubstringsFinal:
+			if !strings.HasSuffix(v, value) {
+				return false
+			}
+			v = ""
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPResultCode) {
 	// constrained search scope
 	parsedBaseDn, err := ldap.ParseDN(baseDN)
-- 
2.43.0


From 45f5a75ccbd8468e2eac1c482af75a5ce91def25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:17 +0000
Subject: [PATCH 18/52] fix: look up index entries without regard to letter
 case

The substring indexes compared values exactly, so a filter like
(cn=*B) did not find the value 'ab' although filters ignore letter
case. The equality index used another way to ignore case than filters
do. Use the folding of the filters for all index keys.
---
 server/handler/ldif/index.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/server/handler/ldif/index.go b/server/handler/ldif/index.go
index 42c20fc..34c7323 100644
--- a/server/handler/ldif/index.go
+++ b/server/handler/ldif/index.go
@@ -12,8 +12,11 @@ import (
 	"github.com/armon/go-radix"
 	"github.com/libregraph/idm/pkg/ldapserver"
 	"github.com/spacewander/go-suffix-tree"
+	"golang.org/x/text/cases"
 )
 
+var casefold = cases.Fold()
+
 var indexAttributes = map[string]string{
 	"entryCSN":     "eq",
 	"entryUUID":    "eq",
@@ -52,6 +55,12 @@ type Index interface {
 	Load(name, op string, params ...string) ([]*ldifEntry, bool)
 }
 
+// indexKey returns the form of the value which is the same for all values that
+// filters treat as equal.
+func indexKey(value string) string {
+	return casefold.String(value)
+}
+
 type indexMap map[string][]*ldifEntry
 
 func newIndexMap() indexMap {
@@ -60,14 +69,14 @@ func newIndexMap() indexMap {
 
 func (im indexMap) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		value = strings.ToLower(value)
+		value = indexKey(value)
 		im[value] = append(im[value], entry)
 	}
 	return true
 }
 
 func (im indexMap) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
-	entries := im[strings.ToLower(value[0])]
+	entries := im[indexKey(value[0])]
 	return entries, true
 }
 
@@ -83,7 +92,7 @@ func newIndexSuffixTree() *indexSuffixTree {
 
 func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		sfx := []byte(value)
+		sfx := []byte(indexKey(value))
 		var entries []*ldifEntry
 		if v, ok := ist.t.Get(sfx); ok {
 			entries = v.([]*ldifEntry)
@@ -96,7 +105,7 @@ func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (ist indexSuffixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	sfx := []byte(value[0])
+	sfx := []byte(indexKey(value[0]))
 	ist.t.WalkSuffix(sfx, func(key []byte, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
@@ -116,7 +125,7 @@ func newIndexRadixTree() *indexRadixTree {
 
 func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		pfx := value
+		pfx := indexKey(value)
 		var entries []*ldifEntry
 		if v, ok := irt.t.Get(pfx); ok {
 			entries = v.([]*ldifEntry)
@@ -129,7 +138,7 @@ func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (irt *indexRadixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	pfx := value[0]
+	pfx := indexKey(value[0])
 	irt.t.WalkPrefix(pfx, func(key string, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
-- 
2.43.0


From a4bfafa665a42b1d99dd07b6fb1108988d1b4ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:34 +0000
Subject: [PATCH 19/52] fix: do not lose results of or filters when using the
 index

The index lookup ignored negated alternatives of an or filter and
dropped its objectClass alternatives. Entries matched only by those
were missing from the result. Walk all entries when an alternative has
no index lookup, and keep objectClass lookups below or.
---
 server/handler/ldif/filter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/handler/ldif/filter.go b/server/handler/ldif/filter.go
index cf32e50..baf335f 100644
--- a/server/handler/ldif/filter.go
+++ b/server/handler/ldif/filter.go
@@ -32,7 +32,8 @@ func parseFilterToIndexFilter(filter string) ([][]string, error) {
 			// NOTE(longsleep): In case of more than one filter, we remove the
 			// index lookup for objectClass since pretty much everything has
 			// an object class anyways and our index lookup does not support
-			// "and" lookups. Thus this gains a lot of efficiency.
+			// "and" lookups. Thus this gains a lot of efficiency. This must not
+			// be done below "or", there the objectClass might be all that matches.
 			for _, f := range matches {
 				if !strings.EqualFold("objectClass", f[1]) {
 					withObjectClass = false
@@ -41,7 +42,7 @@ func parseFilterToIndexFilter(filter string) ([][]string, error) {
 			}
 		}
 		for _, f := range matches {
-			if !withObjectClass && strings.EqualFold("objectClass", f[1]) {
+			if !withObjectClass && strings.EqualFold("objectClass", f[1]) && !strings.Contains(f[0], "|") {
 				continue
 			}
 			result = append(result, f[1:])
@@ -97,10 +98,14 @@ func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level stri
 
 	case ldapserver.FilterOr:
 		for idx, child := range f.Children {
+			count := len(parent)
 			parent, err = parseFilterMatchLeavesForIndex(child, parent, fmt.Sprintf("%s.|%d", level, idx))
 			if err != nil {
 				return nil, err
 			}
+			if len(parent) == count {
+				return nil, errors.New("unsupported alternative without index lookup in or filter")
+			}
 		}
 
 	case ldapserver.FilterNot:
-- 
2.43.0


From dc8f7453a46ad89b269520fd7797468fd43c0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:07 +0000
Subject: [PATCH 20/52] fix: end paged searches with success when the last page
 is full

The cookie was forgotten as soon as the last entry was handed out.
When that entry filled its page exactly, asking for the rest was
answered with an error. Keep the cookie until the end was delivered.
---
 server/handler/ldif/handler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index d93dc27..22dc334 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -331,6 +331,9 @@ results:
 		case entryRecord = <-pumpCh:
 			if entryRecord == nil {
 				// All done, set cookie to empty.
+				if pagingControl != nil {
+					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
+				}
 				pagingCookie = []byte{}
 				break results
 
@@ -441,6 +444,7 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 
 	searchBaseDN := strings.ToLower(searchReq.BaseDN)
 
+	ok := true
 	load := true
 	if len(indexFilter) > 0 {
 		// Get entries with help of index.
@@ -476,12 +480,17 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 		// Walk through all entries (this is slow).
 		h.logger.WithField("filter", searchReq.Filter).Warnln("ldap search filter does not match any index, using slow walk")
 		current.t.WalkSuffix([]byte(searchBaseDN), func(key []byte, entryRecord interface{}) bool {
-			if ok := pump(entryRecord.(*ldifEntry)); !ok {
+			if ok = pump(entryRecord.(*ldifEntry)); !ok {
 				return true
 			}
 			return false
 		})
 	}
+	if ok && pagingControl != nil {
+		// Keep the cookie until the end was delivered, the last page might
+		// have been filled completely.
+		pump(nil)
+	}
 }
 
 func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
-- 
2.43.0


From d84ad3f3481d313b1761974804800d5b813689bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:26 +0000
Subject: [PATCH 21/52] fix: answer the request to abandon a paged search

Asking to abandon a paged search waited for entries that never came,
so the connection hung forever and the search was kept for a minute.
Answer with an empty last page and let the search run to its end.
---
 server/handler/ldif/handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 22dc334..e89ea3f 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -294,6 +294,13 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 					logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("search paging pump abandon")
 					// TODO(longsleep): Cancel paging pump context.
 					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
+					// Let the pump run to its end and answer with an empty page.
+					go func(abandonedCh <-chan *ldifEntry) {
+						for range abandonedCh {
+						}
+					}(pumpChRecord.(chan *ldifEntry))
+					pumpCh = make(chan *ldifEntry)
+					close(pumpCh)
 				}
 			}
 		} else {
-- 
2.43.0


From 3685e6857fbd0be187fa0136d38c9ae273a24b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:13 +0000
Subject: [PATCH 22/52] fix: release the statistics lock after counting an add

With metrics enabled the first add request locked the statistics a second
time instead of unlocking them. The connection hung, and so did every later
connection and request.
---
 pkg/ldapserver/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index c18e627..2b30685 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -47,7 +47,7 @@ func (stats *Stats) countAdds(delta uint64) {
 	if stats != nil {
 		stats.statsMutex.Lock()
 		stats.Adds += delta
-		stats.statsMutex.Lock()
+		stats.statsMutex.Unlock()
 	}
 }
 
-- 
2.43.0


From b8d9f82d319802b5017ee7b37897010dabc1d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:46 +0000
Subject: [PATCH 23/52] fix: reject malformed changes in modify requests

A change without an operation or attribute made the server panic, and an
operation of several bytes was taken for the operation in its first byte.
---
 pkg/ldapserver/modify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ldapserver/modify.go b/pkg/ldapserver/modify.go
index f9f4c20..4547009 100644
--- a/pkg/ldapserver/modify.go
+++ b/pkg/ldapserver/modify.go
@@ -82,6 +82,10 @@ func parseModList(req *ber.Packet) ([]ldap.Change, error) {
 
 	for _, c := range req.Children {
 		var change ldap.Change
+		// A change has 2 Elements (Operation and Attribute), the Operation fits into a single byte
+		if len(c.Children) != 2 || c.Children[0].TagType != ber.TypePrimitive || c.Children[0].Data.Len() != 1 {
+			return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("error decoding Change"))
+		}
 		switch c.Children[0].Data.Bytes()[0] {
 		default:
 			return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid change operation"))
-- 
2.43.0


From d7d35b841306200d8d765971da311680e0599f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:07 +0000
Subject: [PATCH 24/52] fix: reject password changes with an undecodable body

A body that could not be decoded was handled like a missing one, which asks
for a generated password: a damaged request replaced the password of its
sender.
---
 pkg/ldapserver/pwmodifyexop.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index c2efffc..6446258 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -88,13 +88,17 @@ func parsePasswordModifyExop(req *ber.Packet) (*ldap.PasswordModifyRequest, erro
 
 	// An absent (or empty) body of the request is valid. Translates into: "generate a new password for
 	// for the current user"
-	if req == nil {
+	if req == nil || req.Data.Len() == 0 {
 		return &pwReq, nil
 	}
 
-	inner := ber.DecodePacket(req.Data.Bytes())
-	if inner == nil {
-		return &pwReq, nil
+	inner, err := ber.DecodePacketErr(req.Data.Bytes())
+	if err != nil {
+		return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid request"))
+	}
+
+	if inner.ClassType != ber.ClassUniversal || inner.TagType != ber.TypeConstructed || inner.Tag != ber.TagSequence {
+		return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid request"))
 	}
 
 	if len(inner.Children) > 3 {
-- 
2.43.0


From c5716be2ee9e5795091a921e2dfafc06c341751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:42 +0000
Subject: [PATCH 25/52] fix: limit how deep the elements of a request can be
 nested

The decoder recurses for every level. A few megabytes of nested elements,
also in the value of a control or in the body of a password change, exhausted
the stack, which ends the process for all clients.
---
 pkg/ldapserver/packet.go       | 134 +++++++++++++++++++++++++++++++++
 pkg/ldapserver/pwmodifyexop.go |   3 +-
 pkg/ldapserver/server.go       |   8 +-
 3 files changed, 142 insertions(+), 3 deletions(-)
 create mode 100644 pkg/ldapserver/packet.go

diff --git a/pkg/ldapserver/packet.go b/pkg/ldapserver/packet.go
new file mode 100644
index 0000000..7cbee21
--- /dev/null
+++ b/pkg/ldapserver/packet.go
@@ -0,0 +1,134 @@
+package ldapserver
+
+import (
+	"bytes"
+	"errors"
+	"io"
+
+	ber "github.com/go-asn1-ber/asn1-ber"
+)
+
+// maxPacketDepth limits how deep the elements of a packet can be nested. The decoder recurses for every level, so
+// without a limit a client is able to exhaust the stack.
+const maxPacketDepth = 1000
+
+// maxTagBytes limits the size of a tag, larger ones can't be decoded.
+const maxTagBytes = 10
+
+// maxValueDepth limits how many octet strings can be wrapped into each other by control values.
+const maxValueDepth = 10
+
+var errPacketDepth = errors.New("packet is nested too deep")
+
+// readPacket reads and decodes a single packet, refusing those that are nested too deep.
+func readPacket(r io.Reader) (*ber.Packet, error) {
+	var buf bytes.Buffer
+	_, err := copyElement(&buf, r, 0)
+	if err != nil {
+		if err == io.EOF && buf.Len() > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+	return ber.DecodePacketErr(buf.Bytes())
+}
+
+// copyElement copies a single encoded element, including the elements in it. The returned bool tells if the element
+// is the mark at the end of the content of an element of indefinite length.
+func copyElement(buf *bytes.Buffer, r io.Reader, depth int) (bool, error) {
+	if depth > maxPacketDepth {
+		return false, errPacketDepth
+	}
+
+	identifier, err := copyByte(buf, r)
+	if err != nil {
+		return false, err
+	}
+	if identifier&byte(ber.TagBitmask) == byte(ber.HighTag) {
+		for i := 0; ; i++ {
+			b, err := copyByte(buf, r)
+			if err != nil {
+				return false, err
+			}
+			if b&byte(ber.HighTagContinueBitmask) == 0 {
+				break
+			}
+			if i > maxTagBytes {
+				return false, errors.New("tag is too long")
+			}
+		}
+	}
+
+	length, err := copyByte(buf, r)
+	if err != nil {
+		return false, err
+	}
+	size := int64(length)
+	if length == byte(ber.LengthLongFormBitmask) {
+		size = ber.LengthIndefinite
+	} else if length&byte(ber.LengthLongFormBitmask) != 0 {
+		size = 0
+		for i := 0; i < int(length&byte(ber.LengthValueBitmask)); i++ {
+			b, err := copyByte(buf, r)
+			if err != nil {
+				return false, err
+			}
+			if size = size<<8 | int64(b); size > ber.MaxPacketLengthBytes {
+				return false, errors.New("packet is too long")
+			}
+		}
+	}
+
+	if ber.Type(identifier)&ber.TypeConstructed == 0 {
+		if size == ber.LengthIndefinite {
+			return false, errors.New("indefinite length used with primitive type")
+		}
+		_, err = io.CopyN(buf, r, size)
+		return identifier == byte(ber.TagEOC) && size == 0, err
+	}
+
+	if size == ber.LengthIndefinite {
+		for {
+			if end, err := copyElement(buf, r, depth+1); end || err != nil {
+				return false, err
+			}
+		}
+	}
+	for end := int64(buf.Len()) + size; int64(buf.Len()) < end; {
+		if _, err := copyElement(buf, r, depth+1); err != nil {
+			return false, err
+		}
+	}
+	return false, nil
+}
+
+func copyByte(buf *bytes.Buffer, r io.Reader) (byte, error) {
+	var b [1]byte
+	if _, err := io.ReadFull(r, b[:]); err != nil {
+		return 0, err
+	}
+	return b[0], buf.WriteByte(b[0])
+}
+
+// checkValueDepth makes sure that the octet strings of a packet can be decoded safely, if they contain a packet.
+func checkValueDepth(packet *ber.Packet, depth int) error {
+	if depth > maxValueDepth {
+		return errPacketDepth
+	}
+	if packet.TagType == ber.TypeConstructed {
+		for _, child := range packet.Children {
+			if err := checkValueDepth(child, depth); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	value, err := readPacket(bytes.NewReader(packet.Data.Bytes()))
+	if err == errPacketDepth {
+		return err
+	} else if err != nil {
+		// not a packet
+		return nil
+	}
+	return checkValueDepth(value, depth+1)
+}
diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index 6446258..f5bc152 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -1,6 +1,7 @@
 package ldapserver
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"net"
@@ -92,7 +93,7 @@ func parsePasswordModifyExop(req *ber.Packet) (*ldap.PasswordModifyRequest, erro
 		return &pwReq, nil
 	}
 
-	inner, err := ber.DecodePacketErr(req.Data.Bytes())
+	inner, err := readPacket(bytes.NewReader(req.Data.Bytes()))
 	if err != nil {
 		return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid request"))
 	}
diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 9f79452..47dfbbd 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -216,11 +216,11 @@ func (server *Server) handleConnection(conn net.Conn) {
 handler:
 	for {
 		// Read incoming LDAP packet.
-		packet, err := ber.ReadPacket(conn)
+		packet, err := readPacket(conn)
 		if err == io.EOF || err == io.ErrUnexpectedEOF { // Client closed connection.
 			break
 		} else if err != nil {
-			logger.Error(err, "handleConnection ber.ReadPacket")
+			logger.Error(err, "handleConnection readPacket")
 			break
 		}
 
@@ -244,6 +244,10 @@ handler:
 		controls := []ldap.Control{}
 		if len(packet.Children) > 2 {
 			for _, child := range packet.Children[2].Children {
+				if err := checkValueDepth(child, 0); err != nil {
+					logger.Error(err, "handleConnection check control")
+					break handler
+				}
 				c, err := ldap.DecodeControl(child)
 				if err != nil {
 					logger.Error(err, "handleConnection decode control")
-- 
2.43.0


From de634b9f986f868beeeb6388eaae519698bc2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:17 +0000
Subject: [PATCH 26/52] fix: survive panics while handling a request

Some malformed controls make the decoder panic, which ended the process for
all clients. Log the panic and close the connection of the client instead.
---
 pkg/ldapserver/server.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 47dfbbd..4a9b440 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -8,9 +8,11 @@ package ldapserver
 import (
 	"crypto/tls"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"net"
+	"runtime/debug"
 	"strings"
 
 	ber "github.com/go-asn1-ber/asn1-ber"
@@ -213,6 +215,20 @@ listener:
 func (server *Server) handleConnection(conn net.Conn) {
 	boundDN := "" // "" == anonymous
 
+	defer func() {
+		// A panic while handling a request must affect nobody but the client which sent it.
+		if r := recover(); r != nil {
+			logger.Error(fmt.Errorf("panic: %v", r), "handleConnection failed", "stack", string(debug.Stack()))
+		}
+
+		for _, c := range server.CloseFns {
+			c.Close(boundDN, conn)
+		}
+
+		conn.Close()
+		server.Stats.countConnsClose(1)
+	}()
+
 handler:
 	for {
 		// Read incoming LDAP packet.
@@ -435,13 +451,6 @@ handler:
 
 		}
 	}
-
-	for _, c := range server.CloseFns {
-		c.Close(boundDN, conn)
-	}
-
-	conn.Close()
-	server.Stats.countConnsClose(1)
 }
 
 func sendPacket(conn net.Conn, packet *ber.Packet) error {
-- 
2.43.0


From 27e41c9328a4bdea7d832cd6c3f9003af1e1ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:47 +0000
Subject: [PATCH 27/52] fix: answer compare requests with a compare response

The refusal of a compare request was sent with the message type of the
request itself, which clients cannot match as its answer.
---
 pkg/ldapserver/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 4a9b440..9bb0745 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -335,7 +335,7 @@ handler:
 			}
 
 		case ldap.ApplicationCompareRequest:
-			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareRequest, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
+			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareResponse, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
 			if err = sendPacket(conn, responsePacket); err != nil {
 				logger.Error(err, "sendPacket error")
 			}
-- 
2.43.0


From f7b033aee9e18f95e71bda1d23005f7a2c4ba3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:44 +0000
Subject: [PATCH 28/52] fix: refuse binds as entries outside of the base that
 end alike

The file-backed handlers compared the end of the name as text, so an entry
like uid=eve,xdc=lg,dc=local of the file could bind below dc=lg,dc=local.
---
 server/handler/ldif/handler.go    | 9 ++++++++-
 server/handler/ldif/middleware.go | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index e89ea3f..5ea99eb 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -512,12 +512,19 @@ func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
 		return fmt.Errorf("anonymous BindDN not allowed")
 	}
 
-	if strings.HasSuffix(bindDN, h.baseDN) {
+	if isInBaseDN(bindDN, h.baseDN) {
 		return nil
 	}
 	return fmt.Errorf("the BindDN is not in our BaseDN: %s", h.baseDN)
 }
 
+// isInBaseDN returns true if the given DN names the base entry or an entry
+// below it. The end of the text alone does not tell, other names might end alike.
+func isInBaseDN(dn, baseDN string) bool {
+	ok, resultCode := ldapserver.ServerFilterScope(baseDN, ldap.ScopeWholeSubtree, &ldap.Entry{DN: dn})
+	return ok && resultCode == ldap.LDAPResultSuccess
+}
+
 func (h *ldifHandler) Close(bindDN string, conn net.Conn) error {
 	h.logger.WithFields(logrus.Fields{
 		"bind_dn":     bindDN,
diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index f314444..df8651c 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -148,7 +148,7 @@ func (h *ldifMiddleware) Bind(bindDN, bindSimplePw string, conn net.Conn) (resul
 			"remote_addr": conn.RemoteAddr().String(),
 		})
 
-		if !strings.HasSuffix(bindDN, h.baseDN) {
+		if !isInBaseDN(bindDN, h.baseDN) {
 			err := fmt.Errorf("the BindDN is not in our BaseDN %s", h.baseDN)
 			logger.WithError(err).Infoln("ldap bind error")
 			return ldap.LDAPResultInvalidCredentials, nil
-- 
2.43.0


From d4eea7c5e265817ba2e0b11e5154f209d0b679ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:05 +0000
Subject: [PATCH 29/52] fix: report the maximum of concurrent connections

The copy of the statistics that metrics are made from left it out, so it
was always reported as zero.
---
 pkg/ldapserver/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index 2b30685..2a1dbcd 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -106,6 +106,7 @@ func (stats *Stats) Clone() *Stats {
 		stats.statsMutex.RLock()
 		s2.Conns = stats.Conns
 		s2.ConnsCurrent = stats.ConnsCurrent
+		s2.ConnsMax = stats.ConnsMax
 		s2.Adds = stats.Adds
 		s2.Binds = stats.Binds
 		s2.Deletes = stats.Deletes
-- 
2.43.0


From 2ebd9647b4b0b66bc17663def909bcb73db90df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:17 +0000
Subject: [PATCH 30/52] fix: ignore the continuation lines of comments in LDIF
 files

---
 server/handler/ldif/ldif.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 1a77222..bb407f6 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -98,12 +98,19 @@ func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{})
 	scanner := bufio.NewScanner(r)
 	scanner.Split(bufio.ScanLines)
 	var text []string
+	var isComment bool
 	for scanner.Scan() {
 		t := scanner.Text()
 		if t != "" && t[0] == '#' {
 			// Ignore commented lines.
+			isComment = true
 			continue
 		}
+		if isComment && t != "" && t[0] == ' ' {
+			// Ignore continuations of commented lines.
+			continue
+		}
+		isComment = false
 		text = append(text, scanner.Text())
 	}
 
-- 
2.43.0


From 623616f108cce059e64c2af635fee15ff3ec487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:08 +0000
Subject: [PATCH 31/52] fix: load LDIF folders whose path contains pattern
 characters

---
 server/handler/ldif/ldif.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index bb407f6..d7041ad 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -46,10 +46,17 @@ func parseLDIFFile(fn string, options *Options) (*ldif.LDIF, error) {
 // parseLDIFDirectory opens all ldif files in the given path in sorted order,
 // cats them all together and parses the result as LDIF.
 func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error) {
-	matches, err := filepath.Glob(filepath.Join(pn, "*.ldif"))
+	// NOTE: The path itself is no pattern, so it is listed instead of globbed.
+	dirEntries, err := os.ReadDir(pn)
 	if err != nil {
 		return nil, nil, err
 	}
+	var matches []string
+	for _, dirEntry := range dirEntries {
+		if strings.HasSuffix(dirEntry.Name(), ".ldif") {
+			matches = append(matches, filepath.Join(pn, dirEntry.Name()))
+		}
+	}
 	sort.Slice(matches, func(i, j int) bool {
 		return matches[i] < matches[j]
 	})
-- 
2.43.0


From 17304f5d7be0ca300db4a7e396897d8998798faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:30 +0000
Subject: [PATCH 32/52] fix: load LDIF files with very long lines completely
 and report read errors

---
 server/handler/ldif/ldif.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index d7041ad..4f8e6ab 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -10,6 +10,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -104,6 +105,7 @@ func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error
 func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{}) (io.Reader, error) {
 	scanner := bufio.NewScanner(r)
 	scanner.Split(bufio.ScanLines)
+	scanner.Buffer(nil, math.MaxInt) // Lines can be of any length.
 	var text []string
 	var isComment bool
 	for scanner.Scan() {
@@ -120,6 +122,9 @@ func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{})
 		isComment = false
 		text = append(text, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read LDIF template: %w", err)
+	}
 
 	if m == nil {
 		m = make(map[string]interface{})
-- 
2.43.0


From a4e0b2e6b3fd5690ded4ae6822c9726528a93876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:45 +0000
Subject: [PATCH 33/52] fix: include files in LDIF templates up to their last
 byte

---
 server/handler/ldif/template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler/ldif/template.go b/server/handler/ldif/template.go
index 846ffb1..2dd4a3d 100644
--- a/server/handler/ldif/template.go
+++ b/server/handler/ldif/template.go
@@ -112,6 +112,10 @@ func TemplateFuncs(m map[string]interface{}, options *Options) template.FuncMap
 			if n > formatAsFileSizeLimit {
 				return "", fmt.Errorf("LDIF template formatAsFile size limit exceeded: %s", fn)
 			}
+			// Closing flushes the last partial block.
+			if err = encoder.Close(); err != nil {
+				return "", fmt.Errorf("LDIF template formatAsFile error: %w", err)
+			}
 
 			return buf.String(), nil
 		},
-- 
2.43.0


From e714e3cecdc2d2a4994d75e31c293b9b22a87ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:06 +0000
Subject: [PATCH 34/52] fix: refuse LDIF files with change records instead of
 leaving entries out

---
 server/handler/ldif/ldif.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 4f8e6ab..0f88575 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -165,10 +165,13 @@ func treeFromLDIF(l *ldif.LDIF, index Index, options *Options) (*suffix.Tree, er
 	// NOTE(longsleep): Create in memory tree records from LDIF data.
 	var entry *ldap.Entry
 	for _, entryRecord := range l.Entries {
-		if entryRecord == nil || entryRecord.Entry == nil {
+		if entryRecord == nil {
 			// NOTE(longsleep): We don't use l.AllEntries as "nil" records can happen.
 			continue
 		}
+		if entryRecord.Entry == nil {
+			return nil, fmt.Errorf("change records are not supported")
+		}
 		entry = entryRecord.Entry
 		e := &ldifEntry{
 			Entry: &ldap.Entry{
-- 
2.43.0


From 913891130a7ee02f20739478218576f22f20b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:22 +0000
Subject: [PATCH 35/52] fix: refuse LDIF entries with invalid names instead of
 never serving them

---
 server/handler/ldif/ldif.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 0f88575..e7da629 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -173,6 +173,9 @@ func treeFromLDIF(l *ldif.LDIF, index Index, options *Options) (*suffix.Tree, er
 			return nil, fmt.Errorf("change records are not supported")
 		}
 		entry = entryRecord.Entry
+		if _, err := ldap.ParseDN(entry.DN); err != nil {
+			return nil, fmt.Errorf("invalid dn value: %s: %w", entry.DN, err)
+		}
 		e := &ldifEntry{
 			Entry: &ldap.Entry{
 				DN: strings.ToLower(entry.DN),
-- 
2.43.0


From 09318b827eefc31a707c3de47c314f8b3f056d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:21 +0000
Subject: [PATCH 36/52] fix: switch bind-only and data files in one step on
 reload or not at all

---
 server/handler/ldif/handler.go    | 27 ++++++++++-----
 server/handler/ldif/middleware.go | 55 +++++++++++++++++++++++++++----
 2 files changed, 67 insertions(+), 15 deletions(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 5ea99eb..dac7521 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -87,13 +87,25 @@ func NewLDIFHandler(logger logrus.FieldLogger, fn string, options *Options) (han
 }
 
 func (h *ldifHandler) open() error {
+	value, err := h.read()
+	if err != nil {
+		return err
+	}
+
+	h.current.Store(value)
+
+	return nil
+}
+
+// read loads the LDIF data without making it the current data.
+func (h *ldifHandler) read() (*ldifMemoryValue, error) {
 	if !strings.EqualFold(h.options.BaseDN, h.baseDN) {
-		return fmt.Errorf("mismatched BaseDN")
+		return nil, fmt.Errorf("mismatched BaseDN")
 	}
 
 	info, err := os.Stat(h.fn)
 	if err != nil {
-		return fmt.Errorf("failed to open LDIF: %w", err)
+		return nil, fmt.Errorf("failed to open LDIF: %w", err)
 	}
 
 	var l *ldif.LDIF
@@ -105,26 +117,26 @@ func (h *ldifHandler) open() error {
 		var parseErrors []error
 		l, parseErrors, err = parseLDIFDirectory(h.fn, h.options)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		if len(parseErrors) > 0 {
 			for _, parseErr := range parseErrors {
 				h.logger.WithError(parseErr).Errorln("LDIF error")
 			}
-			return fmt.Errorf("error in LDIF files")
+			return nil, fmt.Errorf("error in LDIF files")
 		}
 	} else {
 		h.logger.Debugln("loading LDIF")
 		h.options.templateBasePath = filepath.Dir(h.fn)
 		l, err = parseLDIFFile(h.fn, h.options)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
 	t, err := treeFromLDIF(l, index, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	// Store parsed data as memory value.
@@ -134,7 +146,6 @@ func (h *ldifHandler) open() error {
 
 		index: index,
 	}
-	h.current.Store(value)
 
 	h.logger.WithFields(logrus.Fields{
 		"version":       l.Version,
@@ -144,7 +155,7 @@ func (h *ldifHandler) open() error {
 		"indexes":       len(index),
 	}).Debugln("loaded LDIF")
 
-	return nil
+	return value, nil
 }
 
 func (h *ldifHandler) load() *ldifMemoryValue {
diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index df8651c..6f46214 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -12,6 +12,7 @@ import (
 	"net"
 	"path/filepath"
 	"strings"
+	"sync"
 	"sync/atomic"
 
 	"github.com/go-ldap/ldap/v3"
@@ -30,6 +31,10 @@ type ldifMiddleware struct {
 
 	current atomic.Value
 
+	// reloadMutex keeps binds from seeing our data and the data of the next
+	// handler from before and after a reload at the same time.
+	reloadMutex *sync.RWMutex
+
 	next handler.Handler
 }
 
@@ -55,6 +60,8 @@ func NewLDIFMiddleware(logger logrus.FieldLogger, fn string, options *Options) (
 		options: options,
 
 		baseDN: strings.ToLower(options.BaseDN),
+
+		reloadMutex: &sync.RWMutex{},
 	}
 
 	err = h.open()
@@ -66,26 +73,37 @@ func NewLDIFMiddleware(logger logrus.FieldLogger, fn string, options *Options) (
 }
 
 func (h *ldifMiddleware) open() error {
+	value, err := h.read()
+	if err != nil {
+		return err
+	}
+
+	h.current.Store(value)
+
+	return nil
+}
+
+// read loads the LDIF data without making it the current data.
+func (h *ldifMiddleware) read() (*ldifMemoryValue, error) {
 	if !strings.EqualFold(h.options.BaseDN, h.baseDN) {
-		return fmt.Errorf("mismatched BaseDN")
+		return nil, fmt.Errorf("mismatched BaseDN")
 	}
 
 	h.logger.Debugln("loading LDIF")
 	l, err := parseLDIFFile(h.fn, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	t, err := treeFromLDIF(l, nil, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	// Store parsed data as memory value.
 	value := &ldifMemoryValue{
 		t: t,
 	}
-	h.current.Store(value)
 
 	h.logger.WithFields(logrus.Fields{
 		"version":       l.Version,
@@ -94,7 +112,7 @@ func (h *ldifMiddleware) open() error {
 		"base_dn":       h.options.BaseDN,
 	}).Debugln("loaded LDIF")
 
-	return nil
+	return value, nil
 }
 
 func (h *ldifMiddleware) load() *ldifMemoryValue {
@@ -120,12 +138,32 @@ func (h *ldifMiddleware) WithContext(ctx context.Context) handler.Handler {
 }
 
 func (h *ldifMiddleware) Reload(ctx context.Context) error {
-	err := h.open()
+	// Read everything first, to switch either all of it or nothing.
+	value, err := h.read()
+	if err != nil {
+		return err
+	}
+
+	next, ok := h.next.(*ldifHandler)
+	if !ok {
+		if err = h.next.Reload(ctx); err != nil {
+			return err
+		}
+		h.current.Store(value)
+		return nil
+	}
+
+	nextValue, err := next.read()
 	if err != nil {
 		return err
 	}
 
-	return h.next.Reload(ctx)
+	h.reloadMutex.Lock()
+	defer h.reloadMutex.Unlock()
+	next.current.Store(nextValue)
+	h.current.Store(value)
+
+	return nil
 }
 
 func (h *ldifMiddleware) Add(_ string, _ *ldap.AddRequest, _ net.Conn) (ldapserver.LDAPResultCode, error) {
@@ -135,6 +173,9 @@ func (h *ldifMiddleware) Add(_ string, _ *ldap.AddRequest, _ net.Conn) (ldapserv
 func (h *ldifMiddleware) Bind(bindDN, bindSimplePw string, conn net.Conn) (resultCode ldapserver.LDAPResultCode, err error) {
 	bindDN = strings.ToLower(bindDN)
 
+	h.reloadMutex.RLock()
+	defer h.reloadMutex.RUnlock()
+
 	if bindSimplePw == "" { // Empty password means anonymous bind.
 		return h.next.Bind(bindDN, bindSimplePw, conn)
 	}
-- 
2.43.0


From 2a345e9e80bd00138acfa1ea43630fd27bcf3c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:27 +0000
Subject: [PATCH 37/52] fix: export values with leading spaces and names with
 line breaks so that they can be read back

---
 cmd/idmd/boltdb/export/export.go | 58 ++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/cmd/idmd/boltdb/export/export.go b/cmd/idmd/boltdb/export/export.go
index 773da03..6f83373 100644
--- a/cmd/idmd/boltdb/export/export.go
+++ b/cmd/idmd/boltdb/export/export.go
@@ -6,17 +6,21 @@
 package export
 
 import (
-	"fmt"
+	"bufio"
+	"encoding/base64"
 	"os"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
-	"github.com/go-ldap/ldif"
 	"github.com/sirupsen/logrus"
 	bolt "go.etcd.io/bbolt"
 
 	"github.com/libregraph/idm/pkg/ldbbolt"
 )
 
+// foldWidth is the length of exported lines.
+const foldWidth = 76
+
 type LDIFExporter struct {
 	logger logrus.FieldLogger
 	dbFile string
@@ -59,18 +63,52 @@ func (l *LDIFExporter) Export() error {
 		return err
 	}
 
-	ld, err := ldif.ToLDIF(entries)
-	if err != nil {
-		l.logger.Error(err)
-		return err
+	output := bufio.NewWriter(os.Stdout)
+	for _, entry := range entries {
+		writeLine(output, "dn", entry.DN)
+		for _, attribute := range entry.Attributes {
+			for _, value := range attribute.Values {
+				writeLine(output, attribute.Name, value)
+			}
+		}
+		output.WriteString("\n")
 	}
 
-	output, err := ldif.Marshal(ld)
-	if err != nil {
+	// Errors stick with the writer, so it is enough to check the last one.
+	if err := output.Flush(); err != nil {
 		l.logger.Error(err)
 		return err
 	}
-
-	fmt.Print(output)
 	return nil
 }
+
+// writeLine writes a name and its value as folded LDIF line. The value is
+// encoded if it would not be read back exactly otherwise.
+func writeLine(w *bufio.Writer, name, value string) {
+	line := name + ": " + value
+	if !isSafeValue(value) {
+		line = name + ":: " + base64.StdEncoding.EncodeToString([]byte(value))
+	}
+
+	for width := foldWidth; len(line) > width; width = foldWidth - 1 {
+		w.WriteString(line[:width] + "\n ")
+		line = line[width:]
+	}
+	w.WriteString(line + "\n")
+}
+
+// isSafeValue returns true if the value can be part of a LDIF line as it is.
+func isSafeValue(value string) bool {
+	if value == "" {
+		return true
+	}
+	if strings.ContainsRune(" :<", rune(value[0])) || value[len(value)-1] == ' ' {
+		return false
+	}
+	for i := 0; i < len(value); i++ {
+		if value[i] < ' ' || value[i] > '~' {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From f79dd401c8876592f2c19a6d1a9876ba700b038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:40 +0000
Subject: [PATCH 38/52] fix: import LDIF files with a separate version line and
 refuse change records

---
 cmd/idmd/boltdb/load/load.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/idmd/boltdb/load/load.go b/cmd/idmd/boltdb/load/load.go
index 4bbc4a8..83f0e62 100644
--- a/cmd/idmd/boltdb/load/load.go
+++ b/cmd/idmd/boltdb/load/load.go
@@ -62,7 +62,15 @@ func (l *LDIFLoader) Load(ldifFile string) error {
 		return err
 	}
 
-	for _, entry := range lf.AllEntries() {
+	for _, entryRecord := range lf.Entries {
+		if entryRecord == nil {
+			// NOTE: We don't use lf.AllEntries as "nil" records can happen.
+			continue
+		}
+		entry := entryRecord.Entry
+		if entry == nil {
+			return fmt.Errorf("change records are not supported")
+		}
 		l.logger.Debugf("Adding '%s'", entry.DN)
 		if err := bdb.EntryPut(entry); err != nil {
 			return fmt.Errorf("error adding Entry '%s': %w", entry.DN, err)
-- 
2.43.0


From a1aef59ebd7829d0d69e449f98e0e5524241c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:55 +0000
Subject: [PATCH 39/52] fix: report user lines with five or six fields instead
 of crashing

---
 cmd/idmd/gen/newusers/newusers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 4c0f135..08c3d8d 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -154,7 +154,7 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 
 		// pw_name:pw_passwd:pw_uid:pw_gid:pw_gecos:pw_dir:pw_shell
 		parts := strings.Split(line, ":")
-		if len(parts) < 5 {
+		if len(parts) < 7 {
 			return nil, fmt.Errorf("not enough fields in line %d", count)
 		}
 		e := &entry{
-- 
2.43.0


From 89b733f568d56e3787f4456ea0d9ef68d6343a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:00 +0000
Subject: [PATCH 40/52] fix: report user lists that cannot be read to the end
 instead of leaving out users

---
 cmd/idmd/gen/newusers/newusers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 08c3d8d..8fa57ae 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -179,6 +179,9 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 		results = append(results, e)
 
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read after line %d: %w", count, err)
+	}
 
 	return results, nil
 }
-- 
2.43.0


From 4304058a2c5a48d09b45ac114531caa39949062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:03 +0000
Subject: [PATCH 41/52] fix: print generated passwords with percent signs
 unchanged

---
 cmd/idmd/gen/passwd/passwd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/passwd/passwd.go b/cmd/idmd/gen/passwd/passwd.go
index 1499a63..6a93cfc 100644
--- a/cmd/idmd/gen/passwd/passwd.go
+++ b/cmd/idmd/gen/passwd/passwd.go
@@ -141,7 +141,7 @@ func passwd(cmd *cobra.Command, args []string) error {
 		return err
 	}
 
-	fmt.Fprintf(os.Stdout, hash)
+	fmt.Fprint(os.Stdout, hash)
 	if !OmitTrailingNewline {
 		fmt.Fprintf(os.Stdout, "\n")
 	}
-- 
2.43.0


From bb2f744c1992aa1a4ef86debf9dd6e8585889d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:07 +0000
Subject: [PATCH 42/52] fix: keep user and group numbers of zero for new users

---
 cmd/idmd/gen/newusers/newusers.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 8fa57ae..a8a9784 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -38,10 +38,8 @@ objectClass: posixAccount
 objectClass: top
 objectClass: inetOrgPerson
 uid: <<.entry.Name>>
-uidNumber: <<with .detail.uidNumber>><<.>><<else>><<AutoIncrement>><<end>>
-<<- with .detail.gidNumber>>
-gidNumber: <<.>>
-<<- end>>
+uidNumber: <<.detail.uidNumber>>
+gidNumber: <<.detail.gidNumber>>
 <<- with .detail.userPassword>>
 userPassword: <<.>>
 <<- end>>
-- 
2.43.0


From da222c7e9fbb44d0060aefa918e8c30cc31c5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:34 +0000
Subject: [PATCH 43/52] fix: report argon2 parameters of zero instead of
 crashing

---
 pkg/ldappassword/ldappassword.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index 58539d3..2e3eae2 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -120,6 +120,9 @@ func Hash(password string, algorithm string) (string, error) {
 		result = password
 
 	case "{ARGON2}":
+		if Argon2DefaultParams.Iterations < 1 || Argon2DefaultParams.Parallelism < 1 {
+			return "", fmt.Errorf("password hash error: argon2 needs at least one iteration and one lane")
+		}
 		hash, hashErr := argon2id.CreateHash(password, Argon2DefaultParams)
 		if hashErr != nil {
 			return "", fmt.Errorf("password hash error: %w", hashErr)
-- 
2.43.0


From bff95d425bc113c838affd8e0d17e55e688eb1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:51 +0000
Subject: [PATCH 44/52] fix: refuse clear text passwords which would be taken
 for a hash

---
 pkg/ldappassword/ldappassword.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index 2e3eae2..cadad5c 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -117,6 +117,10 @@ func Hash(password string, algorithm string) (string, error) {
 
 	switch algorithm {
 	case "", "{CLEARTEXT}":
+		if strings.HasPrefix(password, "{") && strings.Contains(password, "}") {
+			// Would be taken for the scheme of a hash when validating.
+			return "", fmt.Errorf("password hash error: password looks like a hash and cannot be used as clear text")
+		}
 		result = password
 
 	case "{ARGON2}":
-- 
2.43.0


From 160fd87660a1c651f6e159e6c83f3e7fa466f595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:28 +0000
Subject: [PATCH 45/52] fix: escape special characters in the names of new
 users and refuse empty names

---
 cmd/idmd/gen/newusers/newusers.go    | 5 ++++-
 cmd/idmd/gen/newusers/output_ldif.go | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index a8a9784..c2deace 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -33,7 +33,7 @@ var (
 )
 
 var DefaultLDIFUserTemplate = `<<- /* */ ->>
-dn: uid=<<.entry.Name>>,<<.BaseDN>>
+dn: uid=<<EscapeDN .entry.Name>>,<<.BaseDN>>
 objectClass: posixAccount
 objectClass: top
 objectClass: inetOrgPerson
@@ -167,6 +167,9 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 			Dir:    parts[5],
 			Shell:  parts[6],
 		}
+		if e.Name == "" {
+			return nil, fmt.Errorf("no user name in line %d", e.line)
+		}
 		if e.Passwd != "" {
 			score := ldappassword.EstimatePasswordStrength(e.Passwd, nil)
 			if score < DefaultMinPasswordStrength {
diff --git a/cmd/idmd/gen/newusers/output_ldif.go b/cmd/idmd/gen/newusers/output_ldif.go
index ab862ea..e7392d6 100644
--- a/cmd/idmd/gen/newusers/output_ldif.go
+++ b/cmd/idmd/gen/newusers/output_ldif.go
@@ -13,6 +13,8 @@ import (
 	"strings"
 	"text/template"
 
+	"github.com/go-ldap/ldap/v3"
+
 	"github.com/libregraph/idm/pkg/ldappassword"
 	"github.com/libregraph/idm/server/handler/ldif"
 )
@@ -60,7 +62,9 @@ func outputLDIF(r io.Reader) error {
 	}
 
 	m := map[string]interface{}{}
-	tpl, err := template.New("tpl").Delims("<<", ">>").Funcs(ldif.TemplateFuncs(m, options)).Parse(DefaultLDIFUserTemplate)
+	tpl, err := template.New("tpl").Delims("<<", ">>").Funcs(ldif.TemplateFuncs(m, options)).Funcs(template.FuncMap{
+		"EscapeDN": ldap.EscapeDN,
+	}).Parse(DefaultLDIFUserTemplate)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 7b7d7a1508ad2e7d07dbe6f3b9447544d8de685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:31 +0000
Subject: [PATCH 46/52] fix: keep leading spaces and braces in passwords and
 full names of new users

---
 cmd/idmd/gen/newusers/newusers.go    |  8 ++++----
 cmd/idmd/gen/newusers/output_ldif.go |  3 ++-
 cmd/idmd/gen/newusers/utils.go       | 11 +++++++++++
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index c2deace..a40c2ca 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -41,18 +41,18 @@ uid: <<.entry.Name>>
 uidNumber: <<.detail.uidNumber>>
 gidNumber: <<.detail.gidNumber>>
 <<- with .detail.userPassword>>
-userPassword: <<.>>
+userPassword<<LDIFValue .>>
 <<- end>>
 mail: <<.entry.Name>>@{{.MailDomain}}
 <<- range .detail.mail>>
 mailAlternateAddress: <<.>>
 <<- end>>
-cn: <<.detail.cn>>
+cn<<LDIFValue .detail.cn>>
 <<- with .detail.givenName>>
-givenName: <<.>>
+givenName<<LDIFValue .>>
 <<- end>>
 <<- with .detail.sn>>
-sn: <<.>>
+sn<<LDIFValue .>>
 <<- end>>
 `
 
diff --git a/cmd/idmd/gen/newusers/output_ldif.go b/cmd/idmd/gen/newusers/output_ldif.go
index e7392d6..f9d7abd 100644
--- a/cmd/idmd/gen/newusers/output_ldif.go
+++ b/cmd/idmd/gen/newusers/output_ldif.go
@@ -63,7 +63,8 @@ func outputLDIF(r io.Reader) error {
 
 	m := map[string]interface{}{}
 	tpl, err := template.New("tpl").Delims("<<", ">>").Funcs(ldif.TemplateFuncs(m, options)).Funcs(template.FuncMap{
-		"EscapeDN": ldap.EscapeDN,
+		"EscapeDN":  ldap.EscapeDN,
+		"LDIFValue": ldifValue,
 	}).Parse(DefaultLDIFUserTemplate)
 	if err != nil {
 		panic(err)
diff --git a/cmd/idmd/gen/newusers/utils.go b/cmd/idmd/gen/newusers/utils.go
index e8fb7dc..50afa1e 100644
--- a/cmd/idmd/gen/newusers/utils.go
+++ b/cmd/idmd/gen/newusers/utils.go
@@ -6,7 +6,9 @@
 package newusers
 
 import (
+	"encoding/base64"
 	"regexp"
+	"strings"
 )
 
 var emailRegex = regexp.MustCompile("^[a-zA-Z0-9.!#$%&'*+\\/=?^_`{|}~-]+@[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?(?:\\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*$")
@@ -17,3 +19,12 @@ func isValidEmail(s string) bool {
 	}
 	return emailRegex.MatchString(s)
 }
+
+// ldifValue returns the separator and the provided value, base64 encoded if it
+// has leading spaces or would be taken for a template when loading.
+func ldifValue(s string) string {
+	if strings.TrimLeft(s, " \t") != s || strings.Contains(s, "{{") {
+		return ":: " + base64.StdEncoding.EncodeToString([]byte(s))
+	}
+	return ": " + s
+}
-- 
2.43.0


From 8dca494893d86bc3503a5838c35fbb9a0399b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:04 +0000
Subject: [PATCH 47/52] fix: do not write to shared memory in concurrent
 searches of LDIF data

---
 server/handler/ldif/handler.go | 15 ++++++++++-----
 server/handler/ldif/index.go   | 11 ++++++++---
 server/handler/ldif/memory.go  |  4 ++++
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index dac7521..f2c8e31 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -146,6 +146,10 @@ func (h *ldifHandler) read() (*ldifMemoryValue, error) {
 
 		index: index,
 	}
+	t.Walk(func(key []byte, entryRecord interface{}) bool {
+		value.entries = append(value.entries, entryRecord.(*ldifEntry))
+		return false
+	})
 
 	h.logger.WithFields(logrus.Fields{
 		"version":       l.Version,
@@ -497,12 +501,13 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 	if load {
 		// Walk through all entries (this is slow).
 		h.logger.WithField("filter", searchReq.Filter).Warnln("ldap search filter does not match any index, using slow walk")
-		current.t.WalkSuffix([]byte(searchBaseDN), func(key []byte, entryRecord interface{}) bool {
-			if ok = pump(entryRecord.(*ldifEntry)); !ok {
-				return true
+		for _, entryRecord := range current.entries {
+			if strings.HasSuffix(entryRecord.DN, searchBaseDN) {
+				if ok = pump(entryRecord); !ok {
+					break
+				}
 			}
-			return false
-		})
+		}
 	}
 	if ok && pagingControl != nil {
 		// Keep the cookie until the end was delivered, the last page might
diff --git a/server/handler/ldif/index.go b/server/handler/ldif/index.go
index 34c7323..1ab6988 100644
--- a/server/handler/ldif/index.go
+++ b/server/handler/ldif/index.go
@@ -8,6 +8,7 @@ package ldif
 import (
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/armon/go-radix"
 	"github.com/libregraph/idm/pkg/ldapserver"
@@ -81,7 +82,9 @@ func (im indexMap) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 }
 
 type indexSuffixTree struct {
-	t *suffix.Tree
+	// Walking the tree writes to its keys.
+	mutex sync.Mutex
+	t     *suffix.Tree
 }
 
 func newIndexSuffixTree() *indexSuffixTree {
@@ -90,7 +93,7 @@ func newIndexSuffixTree() *indexSuffixTree {
 	}
 }
 
-func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
+func (ist *indexSuffixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
 		sfx := []byte(indexKey(value))
 		var entries []*ldifEntry
@@ -103,9 +106,11 @@ func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntr
 	return true
 }
 
-func (ist indexSuffixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
+func (ist *indexSuffixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
 	sfx := []byte(indexKey(value[0]))
+	ist.mutex.Lock()
+	defer ist.mutex.Unlock()
 	ist.t.WalkSuffix(sfx, func(key []byte, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
diff --git a/server/handler/ldif/memory.go b/server/handler/ldif/memory.go
index 749be76..28e30eb 100644
--- a/server/handler/ldif/memory.go
+++ b/server/handler/ldif/memory.go
@@ -14,5 +14,9 @@ type ldifMemoryValue struct {
 	l *ldif.LDIF
 	t *suffix.Tree
 
+	// All entries in the order of the tree. The tree cannot be walked
+	// concurrently since that writes to its keys.
+	entries []*ldifEntry
+
 	index Index
 }
-- 
2.43.0


From ff706f4e9bf0d24e478129e719cbdf6334460a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:07 +0000
Subject: [PATCH 48/52] fix: do not answer searches cut short by a shutdown
 with success

---
 server/handler/ldif/handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index f2c8e31..75e8f41 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -352,6 +352,12 @@ results:
 		select {
 		case entryRecord = <-pumpCh:
 			if entryRecord == nil {
+				if h.ctx.Err() != nil {
+					// The pump might have ended early.
+					return ldapserver.ServerSearchResult{
+						ResultCode: ldap.LDAPResultUnavailable,
+					}, errors.New("search canceled")
+				}
 				// All done, set cookie to empty.
 				if pagingControl != nil {
 					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
-- 
2.43.0


From fe24a682a34b780af5f542a62380281acbeff18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:01 +0000
Subject: [PATCH 49/52] fix: do not lose termination signals between reload
 signals

---
 server/server.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/server/server.go b/server/server.go
index ecbd250..d43417d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -115,6 +115,7 @@ func (s *Server) Serve(ctx context.Context) error {
 	errCh := make(chan error, 2)
 	exitCh := make(chan struct{}, 1)
 	signalCh := make(chan os.Signal, 1)
+	reloadCh := make(chan os.Signal, 1) // Separate, to never lose a termination signal to reloads.
 	readyCh := make(chan struct{}, 1)
 	triggerCh := make(chan bool, 1)
 
@@ -201,20 +202,19 @@ func (s *Server) Serve(ctx context.Context) error {
 
 	// Wait for exit or error, with support for HUP to reload
 	err = func() error {
-		signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
+		signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM)
+		signal.Notify(reloadCh, syscall.SIGHUP)
 		for {
 			select {
 			case errFromChannel := <-errCh:
 				return errFromChannel
-			case reason := <-signalCh:
-				if reason == syscall.SIGHUP {
-					logger.Infoln("reload signal received")
-					select {
-					case triggerCh <- true:
-					default:
-					}
-					continue
+			case <-reloadCh:
+				logger.Infoln("reload signal received")
+				select {
+				case triggerCh <- true:
+				default:
 				}
+			case reason := <-signalCh:
 				logger.WithField("signal", reason).Warnln("received signal")
 				return nil
 			}
-- 
2.43.0


From 98d7eeda218aa75dfa6e8b2f39ba5197ab3acaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:37 +0000
Subject: [PATCH 50/52] fix: accept connections again after a shortage of file
 descriptors

---
 pkg/ldapserver/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 9bb0745..3a51f2e 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -14,6 +14,7 @@ import (
 	"net"
 	"runtime/debug"
 	"strings"
+	"time"
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
@@ -191,6 +192,11 @@ func (server *Server) Serve(ln net.Listener) error {
 				if !strings.HasSuffix(err.Error(), "use of closed network connection") {
 					logger.Error(err, "Error accepting network connection")
 				}
+				if netErr, ok := err.(net.Error); ok && netErr.Temporary() {
+					// For example out of file descriptors, try again.
+					time.Sleep(100 * time.Millisecond)
+					continue
+				}
 				break
 			}
 			logger.V(1).Info("New Connection", "addr", ln.Addr())
-- 
2.43.0


From 77f9379a892b10f66302f3c1cf30e16805d5336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:39:07 +0000
Subject: [PATCH 51/52] fix: keep all values when an add lists an attribute
 several times

The last list of a type replaced the earlier ones, and lists under
different letter case ended up as separate attributes.
---
 pkg/ldapentry/ldapentry.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index 7bbde48..af9ea85 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -2,6 +2,7 @@ package ldapentry
 
 import (
 	"errors"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
 	"golang.org/x/text/cases"
@@ -140,7 +141,14 @@ func EntryFromAddRequest(add *ldap.AddRequest) *ldap.Entry {
 	attrs := map[string][]string{}
 
 	for _, a := range add.Attributes {
-		attrs[a.Type] = a.Vals
+		name := a.Type
+		// A type can be listed several times, also with different letter case.
+		for known := range attrs {
+			if strings.EqualFold(known, name) {
+				name = known
+			}
+		}
+		attrs[name] = append(attrs[name], a.Vals...)
 	}
 	return ldap.NewEntry(add.DN, attrs)
 }
-- 
2.43.0


From 4951c89a49acafc5700fd8027e585ab4926f7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:39:07 +0000
Subject: [PATCH 52/52] fix: tell values with different non-text bytes apart in
 filters

Comparing without regard to letter case treats all bytes that are not
valid UTF-8 as equal, so an equality filter on one binary value matched
entries with another one.
---
 pkg/ldapserver/filter.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 4a4d920..96696c8 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -7,6 +7,7 @@ package ldapserver
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
@@ -61,7 +62,7 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 		for _, a := range entry.Attributes {
 			if strings.EqualFold(a.Name, attribute) {
 				for _, v := range a.Values {
-					if strings.EqualFold(v, value) {
+					if equalValues(v, value) {
 						return true, ldap.LDAPResultSuccess
 					}
 				}
@@ -138,6 +139,15 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 	return false, ldap.LDAPResultSuccess
 }
 
+// equalValues returns true if the values only differ in letter case. Bytes
+// which are not text only equal themselves.
+func equalValues(a, b string) bool {
+	if utf8.ValidString(a) && utf8.ValidString(b) {
+		return strings.EqualFold(a, b)
+	}
+	return casefold.String(a) == casefold.String(b)
+}
+
 // matchSubstrings returns true if the (case folded) value consists of all of
 // the parts of a substring filter, in order and without overlap.
 func matchSubstrings(v string, parts []*ber.Packet) bool {
-- 
2.43.0

