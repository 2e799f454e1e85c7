From 1d5e8cde61cbb7c507f76df5c34b79c65c33939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 01/47] fix: hist with -l or -f panics when no commit is
 selected

---
 internal/concurrent/concurrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 02a55c1..6b99b8a 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -455,6 +455,10 @@ func TallyCommitsTimeline(
 		return nil, err
 	}
 
+	if len(buckets) == 0 {
+		return buckets, nil
+	}
+
 	if end.IsZero() {
 		end = buckets[len(buckets)-1].Time
 	}
-- 
2.43.0


From da8105ca0cd5c82572e9f9640143d3b2885ed2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 02/47] fix: sequential tallies lose their error, tree panics
 on an empty selection

---
 internal/subcommands/hist.go  | 6 +++++-
 internal/subcommands/table.go | 6 +++++-
 internal/subcommands/tree.go  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index 3c34db9..a010dac 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -120,7 +120,11 @@ func Hist(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			buckets, err := tally.TallyCommitsTimeline(
 				commits,
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index 874a10f..3fbe81e 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -136,7 +136,11 @@ func Table(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			tallies, err = tally.TallyCommits(commits, tallyOpts)
 			return err
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 8a6d476..9b45edc 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -151,7 +151,11 @@ func Tree(
 				true,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			root, err := tally.TallyCommitsTree(
 				commits,
-- 
2.43.0


From 3f372b89c0f77f91d4345ae57a5c311d6497e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 03/47] fix: a file named like a revision makes git log and
 rev-list fail

---
 internal/git/cmd/cmd.go | 45 ++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index a6d5e35..83369fb 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -53,18 +53,13 @@ func RunLog(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"}, // Always needed, or Git may see a rev as a path
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
@@ -177,18 +172,13 @@ func RunRevList(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"}, // Always needed, or Git may see a rev as a path
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
@@ -206,12 +196,7 @@ func RunLsFiles(ctx context.Context, pathspecs []string) (*Subprocess, error) {
 		"-z",
 	}
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(baseArgs, pathspecs)
-	} else {
-		args = slices.Concat(baseArgs, []string{"--"}, pathspecs)
-	}
+	args := slices.Concat(baseArgs, []string{"--"}, pathspecs)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
-- 
2.43.0


From 8d5f70a1d95cf2860692ef242ee185930dd2ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 04/47] fix: path arguments with pattern characters panic or
 match nothing

---
 internal/git/pathspec.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index afc1faa..44f1205 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -4,12 +4,14 @@ import (
 	"fmt"
 	"path"
 	"regexp"
+	"strings"
 
 	"github.com/bmatcuk/doublestar/v4"
 )
 
 var excludePathspecRegexp *regexp.Regexp
 var excludeStripRegexp *regexp.Regexp
+var bracesReplacer = strings.NewReplacer(`\{`, `\{`, `{`, `\{`, `\}`, `\}`, `}`, `\}`)
 
 func init() {
 	excludePathspecRegexp = regexp.MustCompile(
@@ -61,6 +63,20 @@ func PathspecMatch(pathspec string, p string) bool {
 		panic("empty string is not valid pathspec")
 	}
 
+	// Like Git, first try to match literally. Path might contain characters
+	// that are special in patterns.
+	literal := strings.TrimSuffix(pathspec, "/")
+	if p == literal || strings.HasPrefix(p, literal+"/") {
+		return true
+	}
+
+	// Git's patterns have no {a,b} alternatives
+	pathspec = bracesReplacer.Replace(pathspec)
+
+	if !doublestar.ValidatePattern(pathspec) {
+		return false // e.g. unclosed bracket; can only match literally
+	}
+
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
 	didMatch, err := doublestar.Match(pathspec, p)
 	if err != nil {
-- 
2.43.0


From 9310c51535d7dd0acc3a2701305eea2d4c951f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 05/47] fix: repository root or mailmap path ending in a space
 is cut short

---
 internal/git/cmd/subprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index ce5dec3..034b686 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -52,7 +52,7 @@ func (s Subprocess) StdoutText() (string, error) {
 		return "", err
 	}
 
-	return strings.TrimSpace(string(b)), nil
+	return strings.TrimRight(string(b), "\r\n"), nil
 }
 
 // Returns a single-use iterator over the output of the command, line by line.
-- 
2.43.0


From 077ab31def8fc7c57be12fced2464fdce5eb8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 06/47] fix: path arguments given in a subdirectory are matched
 from the top level

---
 internal/concurrent/concurrent.go | 14 ++++++++-
 internal/concurrent/worker.go     |  6 +++-
 internal/git/cmd/cmd.go           | 12 ++++++++
 internal/git/git.go               | 49 +++++++++++++++++++++++++++++--
 internal/git/pathspec.go          | 38 ++++++++++++++++++++++++
 5 files changed, 115 insertions(+), 4 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 6b99b8a..e38ff93 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -58,6 +58,7 @@ type combinable[T any] interface {
 type whoperation[T combinable[T]] struct {
 	revspec    []string
 	pathspecs  []string
+	pathBase   git.PathspecBase
 	filters    cmd.LogFilters
 	useMailmap bool
 	ignoreRevs []string
@@ -100,7 +101,11 @@ func accumulateCached[T combinable[T]](
 	var none T
 
 	commits, finish := c.Get(revs)
-	commits, err := git.LimitDiffsByPathspec(commits, whop.pathspecs)
+	commits, err := git.LimitDiffsByPathspecFrom(
+		whop.pathBase,
+		commits,
+		whop.pathspecs,
+	)
 	if err != nil {
 		return none, revs, err
 	}
@@ -149,6 +154,13 @@ func tallyFanOutFanIn[T combinable[T]](
 		return accumulator, err
 	}
 
+	if len(whop.pathspecs) > 0 {
+		whop.pathBase, err = git.GetPathspecBase()
+		if err != nil {
+			return accumulator, err
+		}
+	}
+
 	if len(revs) == 0 {
 		logger().Debug("no commits found; no work to do")
 		return accumulator, nil
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index a51908c..54cb76e 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -225,7 +225,11 @@ loop:
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
-				commits, err = git.LimitDiffsByPathspec(commits, whop.pathspecs)
+				commits, err = git.LimitDiffsByPathspecFrom(
+					whop.pathBase,
+					commits,
+					whop.pathspecs,
+				)
 				if err != nil {
 					return result, err
 				}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 83369fb..19ac327 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -152,6 +152,18 @@ func RunRevParseTopLevel(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
+	var args = []string{"rev-parse", "--show-prefix"}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Runs git rev-list. When countOnly is true, passes --count, which is much
 // faster than printing then getting all the revisions when all you need is the
 // count.
diff --git a/internal/git/git.go b/internal/git/git.go
index de4a515..45c879b 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -179,6 +179,42 @@ func GetRoot() (_ string, err error) {
 	return root, nil
 }
 
+// Returns the top-level directory and the current directory within it.
+func GetPathspecBase() (_ PathspecBase, err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("failed to get path prefix: %w", err)
+		}
+	}()
+
+	var base PathspecBase
+
+	base.Root, err = GetRoot()
+	if err != nil {
+		return base, err
+	}
+
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := cmd.RunRevParsePrefix(ctx)
+	if err != nil {
+		return base, err
+	}
+
+	base.Prefix, err = subprocess.StdoutText()
+	if err != nil {
+		return base, err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return base, err
+	}
+
+	return base, nil
+}
+
 // Returns all paths in the working tree under the given pathspecs.
 func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 	defer func() {
@@ -220,6 +256,15 @@ func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 func LimitDiffsByPathspec(
 	commits iter.Seq[Commit],
 	pathspecs []string,
+) (iter.Seq[Commit], error) {
+	return LimitDiffsByPathspecFrom(PathspecBase{}, commits, pathspecs)
+}
+
+// Same, but for pathspecs that do not start from the top-level directory.
+func LimitDiffsByPathspecFrom(
+	base PathspecBase,
+	commits iter.Seq[Commit],
+	pathspecs []string,
 ) (iter.Seq[Commit], error) {
 	if len(pathspecs) == 0 {
 		return commits, nil
@@ -243,7 +288,7 @@ func LimitDiffsByPathspec(
 				// included.
 				shouldInclude := len(includes) == 0
 				for _, p := range includes {
-					if PathspecMatch(p, diff.Path) {
+					if base.Match(p, diff.Path) {
 						shouldInclude = true
 						break
 					}
@@ -251,7 +296,7 @@ func LimitDiffsByPathspec(
 
 				shouldExclude := false
 				for _, p := range excludes {
-					if PathspecMatch(p, diff.Path) {
+					if base.Match(p, diff.Path) {
 						shouldExclude = true
 						break
 					}
diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 44f1205..63ef808 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -56,6 +56,44 @@ func SplitPathspecs(pathspecs []string) (includes []string, excludes []string) {
 	return includes, excludes
 }
 
+// Where relative and absolute pathspecs given by the user start from.
+type PathspecBase struct {
+	Root   string // Absolute path of the top-level directory
+	Prefix string // Current directory within Root, "" or ending in a slash
+}
+
+// Like PathspecMatch(), but takes a pathspec as given by the user and a path
+// relative to the top-level directory.
+func (base PathspecBase) Match(pathspec string, p string) bool {
+	prefix := base.Prefix
+	pathspec = path.Clean(pathspec)
+
+	if path.IsAbs(pathspec) {
+		rel, ok := strings.CutPrefix(pathspec+"/", base.Root+"/")
+		if !ok {
+			return false
+		}
+
+		prefix = ""
+		pathspec = strings.TrimSuffix(rel, "/")
+	}
+
+	for pathspec == ".." || strings.HasPrefix(pathspec, "../") {
+		prefix = path.Dir(strings.TrimSuffix(prefix, "/")) + "/"
+		if prefix == "./" {
+			prefix = ""
+		}
+		pathspec = strings.TrimPrefix(pathspec[2:], "/")
+	}
+
+	p, ok := strings.CutPrefix(p, prefix)
+	if !ok {
+		return false
+	}
+
+	return pathspec == "" || pathspec == "." || PathspecMatch(pathspec, p)
+}
+
 // Function might panic if passed an invalid pathspec. We validate these
 // elsewhere.
 func PathspecMatch(pathspec string, p string) bool {
-- 
2.43.0


From 1c919645c9c063bbd351c116c71ee6fd828920f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 07/47] fix: with a mailmap, --author matches raw authors in
 parallel runs

---
 internal/concurrent/concurrent.go |  8 +++++++-
 internal/git/cmd/cmd.go           | 19 +++++++++++++++----
 internal/git/git.go               |  9 ++++++++-
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index e38ff93..59ef81e 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -149,7 +149,13 @@ func tallyFanOutFanIn[T combinable[T]](
 	var accumulator T
 
 	// -- Get rev list ---------------------------------------------------------
-	revs, err := git.RevList(ctx, whop.revspec, whop.pathspecs, whop.filters)
+	revs, err := git.RevList(
+		ctx,
+		whop.revspec,
+		whop.pathspecs,
+		whop.filters,
+		whop.useMailmap,
+	)
 	if err != nil {
 		return accumulator, err
 	}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 19ac327..60f8595 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -34,6 +34,7 @@ func RunLog(
 			"--date=unix",
 			"--reverse",
 			"--no-show-signature",
+			"--use-mailmap",
 		}
 	} else {
 		baseArgs = []string{
@@ -164,22 +165,32 @@ func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
-// Runs git rev-list. When countOnly is true, passes --count, which is much
-// faster than printing then getting all the revisions when all you need is the
-// count.
+// Lists the hashes of the selected commits.
+//
+// We run git log instead of git rev-list because the latter cannot match
+// authors using the mailmap.
 func RunRevList(
 	ctx context.Context,
 	revs []string,
 	pathspecs []string,
 	filters LogFilters,
+	useMailmap bool,
 ) (*Subprocess, error) {
 	if len(revs) == 0 {
 		return nil, errors.New("git rev-list requires revision spec")
 	}
 
 	baseArgs := []string{
-		"rev-list",
+		"log",
+		"--pretty=tformat:%H",
 		"--reverse",
+		"--no-show-signature",
+	}
+
+	if useMailmap {
+		baseArgs = append(baseArgs, "--use-mailmap")
+	} else {
+		baseArgs = append(baseArgs, "--no-mailmap")
 	}
 
 	filterArgs := filters.ToArgs()
diff --git a/internal/git/git.go b/internal/git/git.go
index 45c879b..4471929 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -119,6 +119,7 @@ func RevList(
 	revranges []string,
 	pathspecs []string,
 	filters cmd.LogFilters,
+	useMailmap bool,
 ) (_ []string, err error) {
 	defer func() {
 		if err != nil {
@@ -128,7 +129,13 @@ func RevList(
 
 	revs := []string{}
 
-	subprocess, err := cmd.RunRevList(ctx, revranges, pathspecs, filters)
+	subprocess, err := cmd.RunRevList(
+		ctx,
+		revranges,
+		pathspecs,
+		filters,
+		useMailmap,
+	)
 	if err != nil {
 		return revs, err
 	}
-- 
2.43.0


From 4e763a900ee4dc5ad73cc81ea9a4afc18a6357c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 08/47] fix: log.showRoot and diff.relative settings change the
 tallied diffs

---
 internal/git/cmd/cmd.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 60f8595..275e7cd 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -15,6 +15,10 @@ const (
 	mailmapLogFormat = "--pretty=format:%H%x00%h%x00%p%x00%aN%x00%aE%x00%ad%x00"
 )
 
+// Ask for diffs in a way that doesn't depend on the user's log.showRoot and
+// diff.relative settings.
+var diffArgs = []string{"--numstat", "--root", "--no-relative"}
+
 // Runs git log
 func RunLog(
 	ctx context.Context,
@@ -49,7 +53,7 @@ func RunLog(
 	}
 
 	if needDiffs {
-		baseArgs = append(baseArgs, "--numstat")
+		baseArgs = append(baseArgs, diffArgs...)
 	}
 
 	filterArgs := filters.ToArgs()
@@ -106,7 +110,7 @@ func RunStdinLog(
 	}
 
 	if needDiffs {
-		baseArgs = append(baseArgs, "--numstat")
+		baseArgs = append(baseArgs, diffArgs...)
 	}
 
 	var args []string
-- 
2.43.0


From ec0fa39d1ff142e3fb86c2d69fcc20f7da21b736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 09/47] fix: i18n.logOutputEncoding setting garbles author
 names

---
 internal/git/cmd/cmd.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 275e7cd..44e74cc 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -36,6 +36,7 @@ func RunLog(
 			mailmapLogFormat,
 			"-z",
 			"--date=unix",
+			"--encoding=UTF-8",
 			"--reverse",
 			"--no-show-signature",
 			"--use-mailmap",
@@ -46,6 +47,7 @@ func RunLog(
 			logFormat,
 			"-z",
 			"--date=unix",
+			"--encoding=UTF-8",
 			"--reverse",
 			"--no-show-signature",
 			"--no-mailmap",
@@ -90,6 +92,7 @@ func RunStdinLog(
 			mailmapLogFormat,
 			"-z",
 			"--date=unix",
+			"--encoding=UTF-8",
 			"--reverse",
 			"--no-show-signature",
 			"--stdin",
@@ -101,6 +104,7 @@ func RunStdinLog(
 			logFormat,
 			"-z",
 			"--date=unix",
+			"--encoding=UTF-8",
 			"--reverse",
 			"--no-show-signature",
 			"--stdin",
-- 
2.43.0


From 14700c5944df0c2b1faccb6175273550e31b19c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 10/47] fix: --nauthor misses matches inside the author, and
 widens --author

---
 internal/git/cmd/filters.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/internal/git/cmd/filters.go b/internal/git/cmd/filters.go
index f1f9cbb..276c46e 100644
--- a/internal/git/cmd/filters.go
+++ b/internal/git/cmd/filters.go
@@ -24,23 +24,21 @@ func (f LogFilters) ToArgs() []string {
 		args = append(args, "--until", f.Until)
 	}
 
-	for _, author := range f.Authors {
-		args = append(args, "--author", author)
-	}
-
-	if len(f.Nauthors) > 0 {
-		args = append(args, "--perl-regexp")
-
-		// Build regex pattern OR-ing together all the nauthors
-		var b strings.Builder
-		for i, nauthor := range f.Nauthors {
-			b.WriteString(nauthor)
-			if i < len(f.Nauthors)-1 {
-				b.WriteString("|")
-			}
+	if len(f.Nauthors) == 0 {
+		for _, author := range f.Authors {
+			args = append(args, "--author", author)
 		}
+	} else {
+		args = append(args, "--perl-regexp")
 
-		regex := fmt.Sprintf(`^((?!%s).*)$`, b.String())
+		// Build regex pattern OR-ing together all the nauthors. Git would OR
+		// together several --author options, so the authors go into the same
+		// regex.
+		regex := fmt.Sprintf(
+			`^(?!.*(?:%s)).*(?:%s)`,
+			strings.Join(f.Nauthors, "|"),
+			strings.Join(f.Authors, "|"),
+		)
 		args = append(args, "--author", regex)
 	}
 
-- 
2.43.0


From d664c77dadbbbaca9c0228bc0be22bee6593feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 11/47] fix: hist never ends in time zones that skip midnight
 or a day

---
 internal/tally/bucket.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 72416e4..bec9678 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -126,9 +126,23 @@ type Resolution struct {
 	next  func(time.Time) time.Time
 }
 
+// Returns the first moment of the given day. This isn't always midnight, since
+// in some time zones the clock skips midnight once a year.
+func startOfDay(year int, month time.Month, day int) time.Time {
+	t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	if t.Hour() >= 12 {
+		// Midnight was skipped and we got a time before it
+		hour, min, sec := t.Clock()
+		clock := time.Duration(hour*3600+min*60+sec) * time.Second
+		t = t.Add(24*time.Hour - clock)
+	}
+
+	return t
+}
+
 func applyDaily(t time.Time) time.Time {
 	year, month, day := t.Date()
-	return time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	return startOfDay(year, month, day)
 }
 
 var daily = Resolution{
@@ -136,7 +150,13 @@ var daily = Resolution{
 	next: func(t time.Time) time.Time {
 		t = applyDaily(t)
 		year, month, day := t.Date()
-		return time.Date(year, month, day+1, 0, 0, 0, 0, time.Local)
+		next := startOfDay(year, month, day+1)
+		for !next.After(t) {
+			// Not all days exist in all time zones
+			day += 1
+			next = startOfDay(year, month, day+1)
+		}
+		return next
 	},
 	label: func(t time.Time) string {
 		return applyDaily(t).Format(time.DateOnly)
@@ -152,14 +172,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Yearly buckets
 		apply := func(t time.Time) time.Time {
 			year, _, _ := t.Date()
-			return time.Date(year, 1, 1, 0, 0, 0, 0, time.Local)
+			return startOfDay(year, 1, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, _, _ := t.Date()
-				return time.Date(year+1, 1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDay(year+1, 1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("2006")
@@ -169,14 +189,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Monthly buckets
 		apply := func(t time.Time) time.Time {
 			year, month, _ := t.Date()
-			return time.Date(year, month, 1, 0, 0, 0, 0, time.Local)
+			return startOfDay(year, month, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, month, _ := t.Date()
-				return time.Date(year, month+1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDay(year, month+1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("Jan 2006")
-- 
2.43.0


From 1550fe1c27a32ca2365d8138b0a9f0d3ac718c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 12/47] fix: tree is empty when the current directory is
 reached via a symlink

---
 internal/tally/tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 7dbfbd2..7c5d329 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -123,6 +123,12 @@ func TallyCommitsTreeFromPaths(
 		return root, err
 	}
 
+	// Git gives us a root path free of symlinks
+	wd, err = filepath.EvalSymlinks(wd)
+	if err != nil {
+		return root, err
+	}
+
 	// Build tree
 	for key, pathTallies := range talliesByPath {
 		for p, tally := range pathTallies {
-- 
2.43.0


From addd26c4ad2b3ded9840a6c003292e4fc9a0ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 13/47] fix: order of tied authors changes from run to run

---
 internal/tally/tally.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 6125247..9a8d6fd 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -2,8 +2,10 @@
 package tally
 
 import (
+	"cmp"
 	"iter"
 	"slices"
+	"strings"
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git"
@@ -354,7 +356,12 @@ func Rank(tallies map[string]Tally, mode TallyMode) []FinalTally {
 	}
 
 	slices.SortFunc(final, func(a, b FinalTally) int {
-		return -a.Compare(b, mode)
+		// Break remaining ties by name so that order is always the same
+		return cmp.Or(
+			-a.Compare(b, mode),
+			strings.Compare(a.AuthorName, b.AuthorName),
+			strings.Compare(a.AuthorEmail, b.AuthorEmail),
+		)
 	})
 	return final
 }
-- 
2.43.0


From 9d7597766d702f33b6a129f0636187b0732599cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 14/47] fix: hist -f counts commits without file changes as
 files

---
 internal/tally/tally.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 9a8d6fd..7a03ff7 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -141,7 +141,7 @@ func (t Tally) Final() FinalTally {
 	}
 
 	files := t.numTallied // Not using fileset? Fallback to numTallied
-	if len(t.fileset) > 0 {
+	if t.fileset != nil {
 		files = len(t.fileset)
 	}
 
-- 
2.43.0


From ac93574f19367f16139b33170e4bdbf8f4f490ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 15/47] fix: numbers 1,000 and 1,000,000 are formatted wrongly

---
 internal/format/format.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 98c3a5d..1510932 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -91,12 +91,12 @@ func Number(num int) string {
 		return ">99m"
 	}
 
-	if num > 1_000_000 {
+	if num >= 1_000_000 {
 		mils := float32(num) / 1_000_000
 		return fmt.Sprintf("%.1fm", mils)
 	}
 
-	if num > 1_000 {
+	if num >= 1_000 {
 		ones := num % 1_000
 		thousands := num / 1_000
 		return fmt.Sprintf("%d,%03d", thousands, ones)
-- 
2.43.0


From b87e410d30f2b36c18f1ac6d01144f0ff5d8c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 16/47] fix: renamed file with a name like a hash breaks log
 parsing

---
 internal/git/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/git/parse.go b/internal/git/parse.go
index 4efc7da..fa3ed2a 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -65,7 +65,9 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 		linesThisCommit := 0
 
 		for line := range lines {
-			done := linesThisCommit >= 6 && (len(line) == 0 || rev.IsFullHash(line))
+			done := linesThisCommit >= 6 &&
+				diff == nil && // Otherwise line is path of renamed file
+				(len(line) == 0 || rev.IsFullHash(line))
 			if done {
 				if allowCommit(commit, now) {
 					if !yield(commit) {
-- 
2.43.0


From 8a85ab984a70870aaf974d0cf3bf16128c2b042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 17/47] fix: name shown for an email used with several names is
 arbitrary

---
 internal/tally/bucket.go |  5 +++++
 internal/tally/tally.go  | 44 ++++++++++++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index bec9678..8cd779d 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -259,6 +259,11 @@ func TallyCommitsByDate(
 				tally.fileset = map[string]bool{}
 			}
 
+			tally = tally.identify(
+				commit.AuthorName,
+				commit.AuthorEmail,
+				tally.firstCommitTime, // Don't track times here
+			)
 			tally.numTallied += 1
 
 			if !commit.IsMerge {
diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 7a03ff7..7c154b5 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -96,14 +96,25 @@ type Tally struct {
 	numTallied int
 }
 
-func or(a, b string) string {
-	if a == "" {
-		return b
-	} else if b == "" {
-		return a
+// Somebody using one email with several names (or vice versa) goes by the name
+// and email used first. We can't depend on the order we see commits in here.
+func (t Tally) identify(name string, email string, at time.Time) Tally {
+	if name == "" && email == "" {
+		return t
+	}
+
+	better := cmp.Or(
+		at.Compare(t.firstCommitTime),
+		strings.Compare(name, t.name),
+		strings.Compare(email, t.email),
+	) < 0
+
+	if better || (t.name == "" && t.email == "") {
+		t.name = name
+		t.email = email
 	}
 
-	return a
+	return t
 }
 
 func unionInPlace(a, b map[string]bool) map[string]bool {
@@ -121,9 +132,11 @@ func unionInPlace(a, b map[string]bool) map[string]bool {
 }
 
 func (a Tally) Combine(b Tally) Tally {
+	named := a.identify(b.name, b.email, b.firstCommitTime)
+
 	return Tally{
-		name:            or(a.name, b.name),
-		email:           or(a.email, b.email),
+		name:            named.name,
+		email:           named.email,
 		commitset:       unionInPlace(a.commitset, b.commitset),
 		added:           a.added + b.added,
 		removed:         a.removed + b.removed,
@@ -236,6 +249,11 @@ func TallyCommits(
 				tally.firstCommitTime = commit.Date
 			}
 
+			tally = tally.identify(
+				commit.AuthorName,
+				commit.AuthorEmail,
+				commit.Date,
+			)
 			tally.numTallied += 1
 			tally.firstCommitTime = timeutils.Min(
 				commit.Date,
@@ -300,6 +318,11 @@ func TallyCommitsByPath(
 				tally.numTallied = 0 // Don't count toward files changed
 			}
 
+			tally = tally.identify(
+				commit.AuthorName,
+				commit.AuthorEmail,
+				commit.Date,
+			)
 			tally.commitset[commit.ShortHash] = true
 			tally.firstCommitTime = timeutils.Min(
 				tally.firstCommitTime,
@@ -321,6 +344,11 @@ func TallyCommitsByPath(
 					tally.commitset = map[string]bool{}
 				}
 
+				tally = tally.identify(
+					commit.AuthorName,
+					commit.AuthorEmail,
+					commit.Date,
+				)
 				tally.commitset[commit.ShortHash] = true
 				tally.firstCommitTime = timeutils.Min(
 					tally.firstCommitTime,
-- 
2.43.0


From 565316de6a06bc048ef3de379c5543a132bc6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 18/47] fix: error of a git log process can be lost, giving a
 partial result

---
 internal/concurrent/concurrent.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 59ef81e..ce02917 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -295,6 +295,15 @@ loop:
 			return accumulator, errors.New("concurrent tally cancelled")
 		case result, ok := <-results:
 			if !ok {
+				// All workers are done. The last error might have become
+				// ready together with the closing of this channel.
+				if err := <-errs; err != nil {
+					return accumulator, fmt.Errorf(
+						"concurrent tally failed: %w",
+						err,
+					)
+				}
+
 				break loop
 			}
 
-- 
2.43.0


From 41e2a64593803868ab3b605ffbb724bf62c842f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 19/47] fix: commits cut short by a failing git log end up in
 the cache

---
 internal/concurrent/cache.go  | 20 +++-----------------
 internal/concurrent/worker.go | 11 +++++++++--
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/internal/concurrent/cache.go b/internal/concurrent/cache.go
index 80fe688..718ff90 100644
--- a/internal/concurrent/cache.go
+++ b/internal/concurrent/cache.go
@@ -6,33 +6,19 @@ import (
 	"github.com/sinclairtarget/git-who/internal/git"
 )
 
-const cacheChunkSize = chunkSize
-
-// Transparently splits off commits to the cache queue
+// Transparently collects commits to be cached later
 func cacheTee(
 	commits iter.Seq[git.Commit],
-	toCache chan<- []git.Commit,
+	toCache *[]git.Commit,
 ) iter.Seq[git.Commit] {
-	chunk := []git.Commit{}
-
 	return func(yield func(git.Commit) bool) {
 		for c := range commits {
-			chunk = append(chunk, c)
-
-			if len(chunk) >= cacheChunkSize {
-				toCache <- chunk
-				chunk = []git.Commit{}
-			}
+			*toCache = append(*toCache, c)
 
 			if !yield(c) {
 				break
 			}
 		}
-
-		// Make sure to write any remainder
-		if len(chunk) > 0 {
-			toCache <- chunk
-		}
 	}
 }
 
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index 54cb76e..f8635ca 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -211,7 +211,8 @@ loop:
 				return err
 			}
 
-			// Read parsed commits and enqueue for caching
+			// Read parsed commits
+			read := []git.Commit{}
 			result, err := func() (_ T, err error) {
 				var result T
 
@@ -221,7 +222,7 @@ loop:
 				commits, finish := git.ParseCommits(lines)
 				defer func() { err = errors.Join(err, finish()) }()
 
-				commits = cacheTee(commits, toCache)
+				commits = cacheTee(commits, &read)
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
@@ -246,6 +247,12 @@ loop:
 				return err
 			}
 
+			// Enqueue for caching only now. If git log failed, the last commit
+			// we read might be incomplete.
+			if len(read) > 0 {
+				toCache <- read
+			}
+
 			results <- result
 		}
 	}
-- 
2.43.0


From 26a029f063e30e601510db2e92a7181530aa4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 20/47] fix: run fails after wiping a corrupt cache

---
 internal/cache/backends/gob.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 67b8fc9..6a10f97 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -197,6 +197,12 @@ func (b *GobBackend) Add(commits []git.Commit) (err error) {
 
 	b.isDirty = true
 
+	// Cache might have been cleared
+	err = os.MkdirAll(b.Dir, 0o700)
+	if err != nil {
+		return err
+	}
+
 	f, err := os.OpenFile(
 		b.Path,
 		os.O_WRONLY|os.O_APPEND|os.O_CREATE,
-- 
2.43.0


From 50b498b924fb7a2fdf5b3a55974539a7582acc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 21/47] fix: commits from a truncated cache file are used

---
 internal/cache/backends/gob.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 6a10f97..02e8ccc 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -134,7 +134,7 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		for {
 			// -- Find length of next gob in bytes --
 			prefix := make([]byte, 4)
-			_, err := f.Read(prefix)
+			_, err := io.ReadFull(f, prefix)
 			if err == io.EOF {
 				return
 			} else if err != nil {
@@ -157,7 +157,14 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 			var commits []git.Commit
 
 			data := make([]byte, size)
-			_, err = f.Read(data)
+			_, err = io.ReadFull(f, data)
+			if err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
+				iterErr = err
+				return
+			}
 
 			dec := gob.NewDecoder(bytes.NewReader(data))
 			err = dec.Decode(&commits)
-- 
2.43.0


From 78b7880ff6ebfe735ee1b05fc5e7d790fec96e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 22/47] fix: dates of cached commits are in the time zone of an
 earlier run

---
 internal/cache/backends/gob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 02e8ccc..2911ed7 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -186,6 +186,9 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 					}
 
 					seen[c.Hash] = true
+
+					// Time zone might be another one than when we cached it
+					c.Date = c.Date.Local()
 					if !yield(c) {
 						return
 					}
-- 
2.43.0


From b1095e26c0b17b80f80887e63ac2353828d9f4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 23/47] fix: ignored revisions followed by a comment or in
 upper case are counted

---
 internal/git/config/files.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index bd7789c..4207096 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -84,9 +84,9 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
-		line := strings.TrimSpace(scanner.Text())
-
 		// Comments starting with "#" are allowed in the ignore revs file
+		line, _, _ := strings.Cut(scanner.Text(), "#")
+		line = strings.ToLower(strings.TrimSpace(line))
 		if rev.IsFullHash(line) {
 			revs = append(revs, line)
 		}
-- 
2.43.0


From 8915f5eaf55674de881dc0387124f2f9f6748b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 24/47] fix: relative mailmap.file setting is not found in a
 subdirectory

---
 internal/git/config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index 56776b0..145ee1e 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -95,6 +95,11 @@ func DetectSupplementalFiles(
 	}
 
 	if len(mailmapPath) > 0 {
+		if !filepath.IsAbs(mailmapPath) {
+			// Git runs from the top-level directory
+			mailmapPath = filepath.Join(gitRootPath, mailmapPath)
+		}
+
 		_, err = os.Stat(mailmapPath)
 		if err == nil {
 			files.GlobalMailmapPath = mailmapPath
-- 
2.43.0


From a5fcb236fa1c7146b17dcb88e30d0a147027e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 25/47] fix: failure to read the mailmap.file setting is
 ignored

---
 internal/git/config/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index 145ee1e..2c9af88 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -39,7 +39,8 @@ func globalMailmapPath() (string, error) {
 	err = subprocess.Wait()
 	if err != nil {
 		var subprocessErr *cmd.SubprocessErr
-		if errors.As(err, &subprocessErr) {
+		if errors.As(err, &subprocessErr) && subprocessErr.ExitCode == 1 {
+			// Exit code 1 means the setting isn't there
 			logger().Debug(
 				"failed to get mailmap path from config or value not present",
 				"exitcode",
-- 
2.43.0


From 9927fe1031a7221c80070a4617bb0679ee218037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 26/47] fix: git-who hangs when git writes a lot to stderr

---
 internal/git/cmd/subprocess.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 034b686..32c37a8 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -37,7 +37,7 @@ type Subprocess struct {
 	cmd    *exec.Cmd
 	stdin  io.WriteCloser
 	stdout io.ReadCloser
-	stderr io.ReadCloser
+	stderr *bytes.Buffer
 }
 
 func (s Subprocess) StdinWriter() (_ *bufio.Writer, closer func() error) {
@@ -136,12 +136,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 func (s Subprocess) Wait() error {
 	logger().Debug("waiting for subprocess...")
 
-	stderr, err := io.ReadAll(s.stderr)
-	if err != nil {
-		return fmt.Errorf("could not read stderr: %w", err)
-	}
-
-	err = s.cmd.Wait()
+	err := s.cmd.Wait()
 	logger().Debug(
 		"subprocess exited",
 		"code",
@@ -151,7 +146,7 @@ func (s Subprocess) Wait() error {
 	if err != nil {
 		return &SubprocessErr{
 			ExitCode: s.cmd.ProcessState.ExitCode(),
-			Stderr:   strings.TrimSpace(string(stderr)),
+			Stderr:   strings.TrimSpace(s.stderr.String()),
 			Err:      err,
 		}
 	}
@@ -172,10 +167,9 @@ func run(
 		return nil, fmt.Errorf("failed to open stdout pipe: %w", err)
 	}
 
-	stderr, err := cmd.StderrPipe()
-	if err != nil {
-		return nil, fmt.Errorf("failed to open stderr pipe: %w", err)
-	}
+	// Collected while we read stdout, so that Git never blocks writing to it
+	stderr := &bytes.Buffer{}
+	cmd.Stderr = stderr
 
 	var stdin io.WriteCloser
 	if needStdin {
-- 
2.43.0


From adfd556d5503e6c54c05904317cb07813b40241e Mon Sep 17 00:00:00 2001
From: A <a@x>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 27/47] fix: commits without file changes disturb the drawing
 of the tree

---
 internal/tally/tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 7c5d329..d9cdf4c 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -146,6 +146,12 @@ func TallyCommitsTreeFromPaths(
 			// Okay, back to all paths using forward-slash separator
 			relPath = filepath.ToSlash(relPath)
 			inWTree := worktreePaths[relPath]
+
+			if relPath == NoDiffPathname {
+				// Not a path; only counts toward the top level as a whole
+				relPath = ""
+			}
+
 			root.insert(relPath, key, tally, inWTree)
 		}
 	}
-- 
2.43.0


From f1de93533a81dfc50d863fd729edb3a3aa81fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 28/47] fix: moving text between the mailmap files goes
 unnoticed by the cache

---
 internal/git/config/files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index 4207096..dc4ccb4 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -41,6 +41,9 @@ func (sf SupplementalFiles) MailmapHash(h hash.Hash32) error {
 			if err != nil {
 				return fmt.Errorf("error hashing repo mailmap file: %v", err)
 			}
+
+			// Text moving from one file to the other is a change
+			h.Write([]byte{0})
 		}
 	}
 
-- 
2.43.0


From a4ad7023c5fe78ccee4c696810bb7786217740d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 29/47] fix: renames from or to paths not covered by path
 arguments counted differently with one CPU

---
 internal/git/cmd/cmd.go |  5 +++++
 internal/git/git.go     | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 44e74cc..b93a43c 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -56,6 +56,11 @@ func RunLog(
 
 	if needDiffs {
 		baseArgs = append(baseArgs, diffArgs...)
+
+		// Get diffs that include ALL paths touched by each commit, as from
+		// RunStdinLog(). Otherwise Git cannot detect renames from or to paths
+		// not covered by the pathspecs.
+		baseArgs = append(baseArgs, "--full-diff")
 	}
 
 	filterArgs := filters.ToArgs()
diff --git a/internal/git/git.go b/internal/git/git.go
index 4471929..90a4d5a 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -101,6 +101,19 @@ func CommitsWithOpts(
 	commits, finishCommits := ParseCommits(lines)
 	commits = SkipIgnored(commits, ignoreRevs)
 
+	if populateDiffs && len(pathspecs) > 0 {
+		// We DO care to only look at the file diffs under the given paths
+		base, err := GetPathspecBase()
+		if err != nil {
+			return empty, func() error { return err }
+		}
+
+		commits, err = LimitDiffsByPathspecFrom(base, commits, pathspecs)
+		if err != nil {
+			return empty, func() error { return err }
+		}
+	}
+
 	finish := func() error {
 		iterErr := finishCommits()
 		iterErr = errors.Join(iterErr, finishLines())
-- 
2.43.0


From af4adf7ac2124104fa3722f0cf8eafdecc314abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 30/47] fix: tree shows nothing for a directory with an exclude
 pattern

git ls-files mistakes exclude patterns for matching every file when all
included paths are in one directory.
---
 internal/git/git.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/internal/git/git.go b/internal/git/git.go
index 90a4d5a..91ce470 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -11,6 +11,7 @@ import (
 	"errors"
 	"fmt"
 	"iter"
+	"path"
 	"slices"
 	"time"
 
@@ -248,6 +249,22 @@ func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 
 	wtreeset := map[string]bool{}
 
+	// When all included paths are in the same directory, git ls-files mistakes
+	// exclude patterns for matching everything there (or nothing). So apply
+	// the exclude pathspecs ourselves, like we do for diffs.
+	var base PathspecBase
+	includes, excludes := SplitPathspecs(pathspecs)
+	if len(includes) > 0 && len(excludes) > 0 {
+		pathspecs = includes
+
+		base, err = GetPathspecBase()
+		if err != nil {
+			return wtreeset, err
+		}
+	} else {
+		excludes = nil
+	}
+
 	subprocess, err := cmd.RunLsFiles(ctx, pathspecs)
 	if err != nil {
 		return wtreeset, err
@@ -255,7 +272,12 @@ func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 
 	lines, finish := subprocess.StdoutNullDelimitedLines()
 	for line := range lines {
-		wtreeset[line] = true
+		isExcluded := slices.ContainsFunc(excludes, func(p string) bool {
+			return base.Match(p, path.Join(base.Prefix, line))
+		})
+		if !isExcluded {
+			wtreeset[line] = true
+		}
 	}
 
 	err = finish()
-- 
2.43.0


From b6249d49a51f1c2e4cb597f7f58ad8098604af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 31/47] fix: patterns with a leading star match below
 directories, unlike in git

---
 internal/git/pathspec.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 63ef808..9844620 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -115,6 +115,10 @@ func PathspecMatch(pathspec string, p string) bool {
 		return false // e.g. unclosed bracket; can only match literally
 	}
 
+	if pathspec[0] == '*' {
+		return matchAcrossDirs(pathspec, p)
+	}
+
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
 	didMatch, err := doublestar.Match(pathspec, p)
 	if err != nil {
@@ -125,29 +129,28 @@ func PathspecMatch(pathspec string, p string) bool {
 		return true
 	}
 
-	// Ensure we mimic Git behavior with trailing slash. See "pathspec" in
-	// gitglossary(3).
+	// Git doesn't match what is below a matching directory, but a trailing
+	// star matches slashes.
+	if !strings.HasSuffix(pathspec, "*") {
+		return false
+	}
+
 	subdirPathspec := path.Join(pathspec, "**")
 	didMatch, err = doublestar.Match(subdirPathspec, p)
 	if err != nil {
 		panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
 	}
 
-	if didMatch {
-		return true
-	}
-
-	if pathspec[0] == '*' {
-		toplevelPathspec := path.Join("**/", pathspec)
-		didMatch, err = doublestar.Match(toplevelPathspec, p)
-		if err != nil {
-			panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
-		}
+	return didMatch
+}
 
-		if didMatch {
-			return true
-		}
+// Matches like Git, where * and ? also match slashes.
+func matchAcrossDirs(pathspec string, p string) bool {
+	noSlash := strings.NewReplacer("/", "\x00")
+	didMatch, err := doublestar.Match(noSlash.Replace(pathspec), noSlash.Replace(p))
+	if err != nil {
+		panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
 	}
 
-	return false
+	return didMatch
 }
-- 
2.43.0


From 4a6975cae766b6c826d1b3899430966ce80e2c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:43 +0000
Subject: [PATCH 32/47] fix: author patterns and dates starting with a dash are
 not options for git

---
 internal/git/cmd/filters.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/git/cmd/filters.go b/internal/git/cmd/filters.go
index 276c46e..7937ad2 100644
--- a/internal/git/cmd/filters.go
+++ b/internal/git/cmd/filters.go
@@ -16,17 +16,19 @@ type LogFilters struct {
 func (f LogFilters) ToArgs() []string {
 	args := []string{}
 
+	// Values are attached to their options. Git would take a separate value
+	// like "-q" for an option of its own.
 	if f.Since != "" {
-		args = append(args, "--since", f.Since)
+		args = append(args, "--since="+f.Since)
 	}
 
 	if f.Until != "" {
-		args = append(args, "--until", f.Until)
+		args = append(args, "--until="+f.Until)
 	}
 
 	if len(f.Nauthors) == 0 {
 		for _, author := range f.Authors {
-			args = append(args, "--author", author)
+			args = append(args, "--author="+author)
 		}
 	} else {
 		args = append(args, "--perl-regexp")
@@ -39,7 +41,7 @@ func (f LogFilters) ToArgs() []string {
 			strings.Join(f.Nauthors, "|"),
 			strings.Join(f.Authors, "|"),
 		)
-		args = append(args, "--author", regex)
+		args = append(args, "--author="+regex)
 	}
 
 	return args
-- 
2.43.0


From a9de4869e7b554d3175a3ca607c145d0ce7514e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 33/47] fix: what an interrupted run left in the cache is kept

---
 internal/cache/backends/gob.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 2911ed7..7767408 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -54,7 +54,12 @@ func (b *GobBackend) compressedPath() string {
 func (b *GobBackend) Open() error {
 	b.wasOpened = true
 
-	err := uncompress(b.compressedPath(), b.Path)
+	// If an interrupted run left this file behind, it might hold commits that
+	// are not in the compressed file yet.
+	_, err := os.Stat(b.Path)
+	b.isDirty = err == nil
+
+	err = uncompress(b.compressedPath(), b.Path)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 21374de5679f8c280561747655d1d415b27174b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 34/47] fix: log.follow setting changes what path arguments
 select, or fails

---
 internal/git/cmd/cmd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index b93a43c..b776217 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -39,6 +39,7 @@ func RunLog(
 			"--encoding=UTF-8",
 			"--reverse",
 			"--no-show-signature",
+			"--no-follow",
 			"--use-mailmap",
 		}
 	} else {
@@ -50,6 +51,7 @@ func RunLog(
 			"--encoding=UTF-8",
 			"--reverse",
 			"--no-show-signature",
+			"--no-follow",
 			"--no-mailmap",
 		}
 	}
@@ -100,6 +102,7 @@ func RunStdinLog(
 			"--encoding=UTF-8",
 			"--reverse",
 			"--no-show-signature",
+			"--no-follow",
 			"--stdin",
 			"--no-walk",
 		}
@@ -112,6 +115,7 @@ func RunStdinLog(
 			"--encoding=UTF-8",
 			"--reverse",
 			"--no-show-signature",
+			"--no-follow",
 			"--stdin",
 			"--no-walk",
 			"--no-mailmap",
@@ -198,6 +202,7 @@ func RunRevList(
 		"--pretty=tformat:%H",
 		"--reverse",
 		"--no-show-signature",
+		"--no-follow",
 	}
 
 	if useMailmap {
-- 
2.43.0


From 4d0d3a18be8ef1bf587106f5ce07bf41ad7070b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 35/47] fix: a file named with 41 hexadecimal digits is taken
 for a revision

---
 internal/git/revision/revision.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/git/revision/revision.go b/internal/git/revision/revision.go
index 11675d9..080eb7f 100644
--- a/internal/git/revision/revision.go
+++ b/internal/git/revision/revision.go
@@ -7,13 +7,12 @@ import (
 var commitHashRegexp *regexp.Regexp
 
 func init() {
-	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]+$`)
+	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]{40}$`)
 }
 
 // Returns true if this is a (full-length) Git revision hash, false otherwise.
 //
 // We also need to handle a hash with "^" in front.
 func IsFullHash(s string) bool {
-	matched := commitHashRegexp.MatchString(s)
-	return matched && (len(s) == 40 || len(s) == 41)
+	return commitHashRegexp.MatchString(s)
 }
-- 
2.43.0


From 735c2f602bf5f56e6e7e8238a044a45bcbded9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 36/47] fix: tree lists a file that the current directory once
 replaced as .

---
 internal/tally/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index d9cdf4c..a9bd5c7 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -141,6 +141,10 @@ func TallyCommitsTreeFromPaths(
 				if err != nil || !filepath.IsLocal(relPath) {
 					continue // Skip any paths outside of working dir
 				}
+
+				if relPath == "." {
+					continue // Skip file that working dir once replaced
+				}
 			}
 
 			// Okay, back to all paths using forward-slash separator
-- 
2.43.0


From f95bfe6f2558da42c329cd76e3f261cc1967f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:22 +0000
Subject: [PATCH 37/47] fix: non-ASCII --author patterns match nothing with
 another log encoding

---
 internal/git/cmd/cmd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index b776217..faa89ad 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -200,6 +200,7 @@ func RunRevList(
 	baseArgs := []string{
 		"log",
 		"--pretty=tformat:%H",
+		"--encoding=UTF-8", // Also how Git matches authors
 		"--reverse",
 		"--no-show-signature",
 		"--no-follow",
-- 
2.43.0


From 546cdc4862418967bb2dfe83735785f45646d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:28 +0000
Subject: [PATCH 38/47] fix: a repository directory with pattern characters in
 its name makes git-who panic or leave cache files behind

---
 internal/cache/backends/gob.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 7767408..98e4018 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -82,17 +82,20 @@ func (b *GobBackend) Close() error {
 	}
 
 	// Remove any other dangling cache files
-	matches, err := filepath.Glob(filepath.Join(b.Dir, "*"))
-	if err != nil {
-		panic(err) // Bad pattern
+	entries, err := os.ReadDir(b.Dir)
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		logger().Warn(
+			fmt.Sprintf("failed to list old cache files: %v", err),
+		)
 	}
 
-	for _, match := range matches {
-		if match == b.compressedPath() {
+	for _, entry := range entries {
+		p := filepath.Join(b.Dir, entry.Name())
+		if p == b.compressedPath() {
 			continue
 		}
 
-		err := os.Remove(match)
+		err := os.Remove(p)
 		if err != nil {
 			logger().Warn(
 				fmt.Sprintf("failed to delete old cache file: %v", err),
-- 
2.43.0


From c80e993c1489ecaa1b61c4ad3bb189bdddf461f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:28 +0000
Subject: [PATCH 39/47] fix: a long comment in .git-blame-ignore-revs makes
 every report fail

---
 internal/git/config/files.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index dc4ccb4..740bd63 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -7,6 +7,7 @@ import (
 	"hash"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"strings"
 
@@ -86,6 +87,7 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, math.MaxInt) // Comments can be of any length
 	for scanner.Scan() {
 		// Comments starting with "#" are allowed in the ignore revs file
 		line, _, _ := strings.Cut(scanner.Text(), "#")
-- 
2.43.0


From b7573a4976659eda1615d0f7337f32826e86b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:28 +0000
Subject: [PATCH 40/47] fix: reports fail for author names or paths longer than
 64 KB

---
 internal/git/cmd/subprocess.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 32c37a8..6c17a6a 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -7,10 +7,15 @@ import (
 	"fmt"
 	"io"
 	"iter"
+	"math"
 	"os/exec"
 	"strings"
 )
 
+// Git has no limit on the length of author names, file paths, or the list of a
+// commit's parents.
+const maxLineSize = math.MaxInt
+
 type SubprocessErr struct {
 	ExitCode int
 	Stderr   string
@@ -61,6 +66,8 @@ func (s Subprocess) StdoutLines() (iter.Seq[string], func() error) {
 
 	seq := func(yield func(string) bool) {
 		scanner := bufio.NewScanner(s.stdout)
+		scanner.Buffer(nil, maxLineSize)
+
 		for scanner.Scan() {
 			if !yield(scanner.Text()) {
 				return
@@ -92,6 +99,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 
 	seq := func(yield func(string) bool) {
 		scanner := bufio.NewScanner(s.stdout)
+		scanner.Buffer(nil, maxLineSize)
 
 		scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
 			null_i := bytes.IndexByte(data, '\x00')
-- 
2.43.0


From 8117a8fded00dea6dda8d9f06bfd9c931c650b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:45 +0000
Subject: [PATCH 41/47] fix: a file name loses its leading line break when the
 file is renamed or listed

---
 internal/git/cmd/subprocess.go | 10 ++--------
 internal/git/parse.go          |  6 ++++++
 internal/subcommands/dump.go   |  1 +
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 6c17a6a..836ff54 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -90,7 +90,7 @@ func (s Subprocess) StdoutLines() (iter.Seq[string], func() error) {
 
 // Returns a single-use iterator over the output from git log.
 //
-// Lines are split on NULLs with some additional processing.
+// Lines are split on NULLs.
 func (s Subprocess) StdoutNullDelimitedLines() (
 	iter.Seq[string],
 	func() error,
@@ -116,13 +116,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 		})
 
 		for scanner.Scan() {
-			line := scanner.Text()
-
-			// Handle annoying new line that exists between regular commit
-			// fields and --numstat data
-			processedLine := strings.TrimPrefix(line, "\n")
-
-			if !yield(processedLine) {
+			if !yield(scanner.Text()) {
 				return
 			}
 		}
diff --git a/internal/git/parse.go b/internal/git/parse.go
index fa3ed2a..ca30ddf 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -111,6 +111,12 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 			default:
 				var err error
 
+				// Handle annoying new line that exists between regular commit
+				// fields and --numstat data
+				if linesThisCommit == 6 {
+					line = strings.TrimPrefix(line, "\n")
+				}
+
 				// Handle file diffs
 				if diff == nil {
 					diff = &FileDiff{}
diff --git a/internal/subcommands/dump.go b/internal/subcommands/dump.go
index ca74650..f5779e6 100644
--- a/internal/subcommands/dump.go
+++ b/internal/subcommands/dump.go
@@ -85,6 +85,7 @@ func Dump(
 
 	lines, finish := subprocess.StdoutNullDelimitedLines()
 	for line := range lines {
+		line = strings.TrimPrefix(line, "\n") // Before --numstat data
 		lineWithReplaced := strings.ReplaceAll(line, "\n", "\\n")
 		fmt.Fprintln(w, lineWithReplaced)
 	}
-- 
2.43.0


From 3ce23fb9cefa85d3663f00582baf52c560a202ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:56 +0000
Subject: [PATCH 42/47] fix: absolute path arguments through a symlink count no
 lines or files

---
 internal/git/git.go      |  4 ++++
 internal/git/pathspec.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/internal/git/git.go b/internal/git/git.go
index 91ce470..f252372 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -261,6 +261,8 @@ func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 		if err != nil {
 			return wtreeset, err
 		}
+
+		excludes = base.resolve(excludes)
 	} else {
 		excludes = nil
 	}
@@ -322,6 +324,8 @@ func LimitDiffsByPathspecFrom(
 
 	return func(yield func(Commit) bool) {
 		includes, excludes := SplitPathspecs(pathspecs)
+		includes = base.resolve(includes)
+		excludes = base.resolve(excludes)
 
 		for commit := range commits {
 			filtered := []FileDiff{}
diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 9844620..8fcf960 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -3,6 +3,7 @@ package git
 import (
 	"fmt"
 	"path"
+	"path/filepath"
 	"regexp"
 	"strings"
 
@@ -62,6 +63,37 @@ type PathspecBase struct {
 	Prefix string // Current directory within Root, "" or ending in a slash
 }
 
+// Makes absolute pathspecs start with the top-level directory, if they do lead
+// there. Like for Git, they can do so through symlinks.
+func (base PathspecBase) resolve(pathspecs []string) []string {
+	resolved := []string{}
+	for _, p := range pathspecs {
+		resolved = append(resolved, base.resolveOne(p))
+	}
+
+	return resolved
+}
+
+func (base PathspecBase) resolveOne(pathspec string) string {
+	cleaned := path.Clean(pathspec)
+	if !path.IsAbs(cleaned) || strings.HasPrefix(cleaned+"/", base.Root+"/") {
+		return pathspec
+	}
+
+	for i := 1; i <= len(cleaned); i++ {
+		if i < len(cleaned) && cleaned[i] != '/' {
+			continue
+		}
+
+		real, err := filepath.EvalSymlinks(cleaned[:i])
+		if err == nil && real == base.Root {
+			return base.Root + cleaned[i:]
+		}
+	}
+
+	return pathspec
+}
+
 // Like PathspecMatch(), but takes a pathspec as given by the user and a path
 // relative to the top-level directory.
 func (base PathspecBase) Match(pathspec string, p string) bool {
-- 
2.43.0


From 50a9f57d68f7c350353404baf276195ba3f2fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:48 +0000
Subject: [PATCH 43/47] fix: revisions are ignored in repositories that use
 SHA-256 hashes

---
 internal/git/args.go              | 15 ++++++++++++++-
 internal/git/cmd/cmd.go           |  3 +++
 internal/git/revision/revision.go |  5 ++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/git/args.go b/internal/git/args.go
index 6f58b1b..83faf9e 100644
--- a/internal/git/args.go
+++ b/internal/git/args.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"path/filepath"
+	"strings"
 
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
 	rev "github.com/sinclairtarget/git-who/internal/git/revision"
@@ -26,9 +27,21 @@ func ParseArgs(args []string) (revs []string, pathspecs []string, err error) {
 	revs = []string{}
 	pathspecs = []string{}
 
+	hashLen := 0
 	pastRevs := false
 	for line := range lines {
-		if !pastRevs && rev.IsFullHash(line) {
+		if hashLen == 0 {
+			// First line is always the object format of the repository
+			hashLen = 40
+			if line == "sha256" {
+				hashLen = 64
+			}
+			continue
+		}
+
+		isRev := rev.IsFullHash(line) &&
+			len(strings.TrimPrefix(line, "^")) == hashLen
+		if !pastRevs && isRev {
 			revs = append(revs, line)
 		} else {
 			pastRevs = true
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index faa89ad..999ca26 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -143,9 +143,12 @@ func RunStdinLog(
 }
 
 // Runs git rev-parse
+//
+// The first line of output is the object format of the repository.
 func RunRevParse(ctx context.Context, args []string) (*Subprocess, error) {
 	var baseArgs = []string{
 		"rev-parse",
+		"--show-object-format",
 		"--no-flags",
 	}
 
diff --git a/internal/git/revision/revision.go b/internal/git/revision/revision.go
index 080eb7f..cf2723c 100644
--- a/internal/git/revision/revision.go
+++ b/internal/git/revision/revision.go
@@ -7,11 +7,14 @@ import (
 var commitHashRegexp *regexp.Regexp
 
 func init() {
-	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]{40}$`)
+	commitHashRegexp = regexp.MustCompile(`^\^?([a-f0-9]{40}|[a-f0-9]{64})$`)
 }
 
 // Returns true if this is a (full-length) Git revision hash, false otherwise.
 //
+// The hash may be a SHA-1 hash or, in a repository that uses them, a SHA-256
+// hash.
+//
 // We also need to handle a hash with "^" in front.
 func IsFullHash(s string) bool {
 	return commitHashRegexp.MatchString(s)
-- 
2.43.0


From c95f1714567f8e6b240c2925edbf9149c4c1207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:26 +0000
Subject: [PATCH 44/47] fix: the cache hides changes to shallow commits,
 replaced commits, attributes, and diff settings

---
 internal/cache/cache.go       | 29 ++++++++---
 internal/git/cmd/cmd.go       | 62 ++++++++++++++++++++++
 internal/git/config/diffs.go  | 97 +++++++++++++++++++++++++++++++++++
 internal/subcommands/hist.go  |  7 ++-
 internal/subcommands/table.go |  7 ++-
 internal/subcommands/tree.go  |  7 ++-
 6 files changed, 198 insertions(+), 11 deletions(-)
 create mode 100644 internal/git/config/diffs.go

diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index a2b9fdf..ef42cdf 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -176,13 +176,18 @@ func cacheStorageDir(name string) (_ string, err error) {
 }
 
 // Hash of all the state in the repo that affects the validity of our cache
-func repoStateHash(sf config.SupplementalFiles) (string, error) {
+func repoStateHash(
+	sf config.SupplementalFiles,
+	diffState []byte,
+) (string, error) {
 	h := fnv.New32()
 	err := sf.MailmapHash(h)
 	if err != nil {
 		return "", err
 	}
 
+	h.Write(diffState)
+
 	return hex.EncodeToString(h.Sum(nil)), nil
 }
 
@@ -194,33 +199,41 @@ func warnFail(cb Backend, err error) Cache {
 	return NewCache(cb)
 }
 
-func GetCache(gitRootPath string, configFiles config.SupplementalFiles) Cache {
+func GetCache(
+	gitRootPath string,
+	configFiles config.SupplementalFiles,
+) (Cache, error) {
 	var fallback Backend = backends.NoopBackend{}
 
 	if !IsCachingEnabled() {
-		return NewCache(fallback)
+		return NewCache(fallback), nil
 	}
 
 	cacheStorageDir, err := cacheStorageDir(
 		backends.GobBackendName,
 	)
 	if err != nil {
-		return warnFail(fallback, err)
+		return warnFail(fallback, err), nil
 	}
 
 	dirname := backends.GobCacheDir(cacheStorageDir, gitRootPath)
 	err = os.MkdirAll(dirname, 0o700)
 	if err != nil {
-		return warnFail(fallback, err)
+		return warnFail(fallback, err), nil
+	}
+
+	diffState, err := config.DiffState(gitRootPath)
+	if err != nil {
+		return NewCache(fallback), err // Git isn't working
 	}
 
-	stateHash, err := repoStateHash(configFiles)
+	stateHash, err := repoStateHash(configFiles, diffState)
 	if err != nil {
-		return warnFail(fallback, err)
+		return warnFail(fallback, err), nil
 	}
 
 	filename := backends.GobCacheFilename(stateHash)
 	p := filepath.Join(dirname, filename)
 	logger().Debug("cache initialized", "path", p)
-	return NewCache(&backends.GobBackend{Path: p, Dir: dirname})
+	return NewCache(&backends.GobBackend{Path: p, Dir: dirname}), nil
 }
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 999ca26..cf059ea 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -185,6 +185,30 @@ func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+// First two lines of output are the paths of the file listing the shallow
+// commits and of the repo-local attributes file. The other lines are the
+// replaced commits and what they are replaced with.
+func RunRevParseDiffState(ctx context.Context) (*Subprocess, error) {
+	var args = []string{
+		"rev-parse",
+		"--git-path",
+		"shallow",
+		"--git-path",
+		"info/attributes",
+		"--glob=refs/replace/",
+		"--symbolic-full-name",
+		"--glob=refs/replace/",
+	}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Lists the hashes of the selected commits.
 //
 // We run git log instead of git rev-list because the latter cannot match
@@ -263,3 +287,41 @@ func RunConfigGet(ctx context.Context, args []string) (*Subprocess, error) {
 
 	return subprocess, nil
 }
+
+// Gets all settings that change diffs. Exit code is 1 when there are none.
+func RunConfigGetDiffState(ctx context.Context) (*Subprocess, error) {
+	args := []string{
+		"config",
+		"-z",
+		"--get-regexp",
+		`^(diff\..*|core\.attributesfile)$`,
+	}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git config --get-regexp: %w", err)
+	}
+
+	return subprocess, nil
+}
+
+// Lists all attributes files, each with the hash of its contents in the index.
+func RunLsFilesAttributes(ctx context.Context) (*Subprocess, error) {
+	args := []string{
+		"ls-files",
+		"-z",
+		"--stage",
+		"--full-name",
+		"--",
+		":(top,glob)**/.gitattributes",
+	}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git ls-files: %w", err)
+	}
+
+	return subprocess, nil
+}
diff --git a/internal/git/config/diffs.go b/internal/git/config/diffs.go
new file mode 100644
index 0000000..27f2ff5
--- /dev/null
+++ b/internal/git/config/diffs.go
@@ -0,0 +1,97 @@
+package config
+
+import (
+	"bytes"
+	"context"
+	"errors"
+	"fmt"
+	"io"
+	"os"
+	"path/filepath"
+	"strings"
+
+	"github.com/sinclairtarget/git-who/internal/git/cmd"
+)
+
+// Returns everything that, for the same commit, can change the author or the
+// diffs that Git shows. (Everything but the mailmap, that is.)
+//
+// A shallow clone can be deepened, commits can be replaced, and users can
+// change how Git computes diffs in the Git config and in .gitattributes files.
+func DiffState(gitRootPath string) (_ []byte, err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("error looking up state affecting diffs: %w", err)
+		}
+	}()
+
+	var w bytes.Buffer
+
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	// Replaced commits, shallow commits, and repo-local attributes
+	out, err := runText(cmd.RunRevParseDiffState(ctx))
+	if err != nil {
+		return nil, err
+	}
+
+	for i, line := range strings.Split(out, "\n") {
+		if i < 2 {
+			writeContent(&w, line)
+		} else {
+			fmt.Fprintln(&w, line)
+		}
+	}
+
+	// Settings
+	out, err = runText(cmd.RunConfigGetDiffState(ctx))
+	if err != nil {
+		var subprocessErr *cmd.SubprocessErr
+		if !errors.As(err, &subprocessErr) || subprocessErr.ExitCode != 1 {
+			return nil, err
+		}
+
+		// Exit code 1 means no settings
+	}
+
+	fmt.Fprint(&w, out)
+
+	// Attributes
+	out, err = runText(cmd.RunLsFilesAttributes(ctx))
+	if err != nil {
+		return nil, err
+	}
+
+	writeContent(&w, filepath.Join(gitRootPath, ".gitattributes"))
+	for _, line := range strings.Split(out, "\x00") {
+		fmt.Fprint(&w, line)
+		_, path, ok := strings.Cut(line, "\t")
+		if ok {
+			writeContent(&w, filepath.Join(gitRootPath, path))
+		}
+	}
+
+	return w.Bytes(), nil
+}
+
+// Writes nothing when there is no file that can be read.
+func writeContent(w io.Writer, path string) {
+	content, err := os.ReadFile(path)
+	if err == nil {
+		w.Write(content)
+	}
+}
+
+func runText(subprocess *cmd.Subprocess, err error) (string, error) {
+	if err != nil {
+		return "", err
+	}
+
+	text, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	return text, subprocess.Wait()
+}
diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index a010dac..95cde3c 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -96,6 +96,11 @@ func Hist(
 
 	var buckets []tally.TimeBucket
 	if populateDiffs && runtime.GOMAXPROCS(0) > 1 {
+		commitCache, err := cache.GetCache(gitRootPath, configFiles)
+		if err != nil {
+			return err
+		}
+
 		buckets, err = concurrent.TallyCommitsTimeline(
 			ctx,
 			revs,
@@ -104,7 +109,7 @@ func Hist(
 			configFiles,
 			tallyOpts,
 			end,
-			cache.GetCache(gitRootPath, configFiles),
+			commitCache,
 			pretty.AllowDynamic(os.Stdout),
 		)
 		if err != nil {
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index 3fbe81e..d0fff68 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -112,6 +112,11 @@ func Table(
 
 	var tallies map[string]tally.Tally
 	if populateDiffs && runtime.GOMAXPROCS(0) > 1 {
+		commitCache, err := cache.GetCache(gitRootPath, configFiles)
+		if err != nil {
+			return err
+		}
+
 		tallies, err = concurrent.TallyCommits(
 			ctx,
 			revs,
@@ -119,7 +124,7 @@ func Table(
 			filters,
 			configFiles,
 			tallyOpts,
-			cache.GetCache(gitRootPath, configFiles),
+			commitCache,
 			pretty.AllowDynamic(os.Stdout),
 		)
 		if err != nil {
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 9b45edc..0c3a306 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -120,6 +120,11 @@ func Tree(
 
 	var root *tally.TreeNode
 	if runtime.GOMAXPROCS(0) > 1 {
+		commitCache, err := cache.GetCache(gitRootPath, configFiles)
+		if err != nil {
+			return err
+		}
+
 		root, err = concurrent.TallyCommitsTree(
 			ctx,
 			revs,
@@ -129,7 +134,7 @@ func Tree(
 			tallyOpts,
 			wtreeset,
 			gitRootPath,
-			cache.GetCache(gitRootPath, configFiles),
+			commitCache,
 			pretty.AllowDynamic(os.Stdout),
 		)
 
-- 
2.43.0


From f447c4ed8d00c9f053965a9e00317e07501cbfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:16 +0000
Subject: [PATCH 45/47] fix: report output that could not be written

Errors of writing the table, the tree, or the plot to stdout were ignored, so
that a report cut short by a full disk passed for a complete one.
---
 internal/subcommands/hist.go  | 19 +++++++++----
 internal/subcommands/parse.go | 10 ++++---
 internal/subcommands/table.go | 50 ++++++++++++++++++++++++++---------
 internal/subcommands/tree.go  | 22 ++++++++++-----
 4 files changed, 74 insertions(+), 27 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index 95cde3c..1499f0e 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -1,6 +1,7 @@
 package subcommands
 
 import (
+	"bufio"
 	"context"
 	"fmt"
 	"math"
@@ -157,8 +158,7 @@ func Hist(
 		}
 	}
 
-	drawPlot(buckets, maxVal, mode, showEmail)
-	return nil
+	return drawPlot(buckets, maxVal, mode, showEmail)
 }
 
 func drawPlot(
@@ -166,7 +166,9 @@ func drawPlot(
 	maxVal int,
 	mode tally.TallyMode,
 	showEmail bool,
-) {
+) error {
+	w := bufio.NewWriter(os.Stdout)
+
 	var lastAuthor string
 	for _, bucket := range buckets {
 		value := bucket.Value(mode)
@@ -189,7 +191,8 @@ func drawPlot(
 				showEmail,
 				bucket.Tally.AuthorName == lastAuthor,
 			)
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"%s ┤ %s%s%-*s%s  %s\n",
 				bucket.Name,
 				valueBar,
@@ -202,9 +205,15 @@ func drawPlot(
 
 			lastAuthor = bucket.Tally.AuthorName
 		} else {
-			fmt.Printf("%s ┤ \n", bucket.Name)
+			fmt.Fprintf(w, "%s ┤ \n", bucket.Name)
 		}
 	}
+
+	if err := w.Flush(); err != nil {
+		return fmt.Errorf("error writing plot to stdout: %w", err)
+	}
+
+	return nil
 }
 
 func fmtHistTally(
diff --git a/internal/subcommands/parse.go b/internal/subcommands/parse.go
index 606274b..2213dfd 100644
--- a/internal/subcommands/parse.go
+++ b/internal/subcommands/parse.go
@@ -92,14 +92,18 @@ func Parse(
 		numCommits += 1
 	}
 
-	w.Flush()
-
 	err = finish()
 	if err != nil {
+		w.Flush()
 		return err
 	}
 
-	fmt.Printf("Parsed %d commits.\n", numCommits)
+	fmt.Fprintf(w, "Parsed %d commits.\n", numCommits)
+
+	err = w.Flush()
+	if err != nil {
+		return err
+	}
 
 	elapsed := time.Now().Sub(start)
 	logger().Debug("finished parse", "duration_ms", elapsed.Milliseconds())
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index d0fff68..002d67f 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -1,6 +1,7 @@
 package subcommands
 
 import (
+	"bufio"
 	"context"
 	"encoding/csv"
 	"fmt"
@@ -171,7 +172,16 @@ func Table(
 		}
 	} else {
 		colwidth := pickWidth(mode, showEmail)
-		writeTable(rankedTallies, colwidth, showEmail, mode, numFilteredOut)
+		err := writeTable(
+			rankedTallies,
+			colwidth,
+			showEmail,
+			mode,
+			numFilteredOut,
+		)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -275,11 +285,13 @@ func writeTable(
 	showEmail bool,
 	mode tally.TallyMode,
 	numFilteredOut int,
-) {
+) error {
 	if len(tallies) == 0 {
-		return
+		return nil
 	}
 
+	w := bufio.NewWriter(os.Stdout)
+
 	var build strings.Builder
 	for _ = range colwidth - 2 {
 		build.WriteRune('─')
@@ -287,10 +299,11 @@ func writeTable(
 	rule := build.String()
 
 	// -- Write header --
-	fmt.Printf("┌%s┐\n", rule)
+	fmt.Fprintf(w, "┌%s┐\n", rule)
 
 	if mode == tally.LinesMode || mode == tally.FilesMode {
-		fmt.Printf(
+		fmt.Fprintf(
+			w,
 			"│%-*s %-11s %7s %7s  %17s│\n",
 			colwidth-36-13,
 			"Author",
@@ -300,7 +313,8 @@ func writeTable(
 			"Lines (+/-)",
 		)
 	} else if mode == tally.FirstModifiedMode {
-		fmt.Printf(
+		fmt.Fprintf(
+			w,
 			"│%-*s %-11s %7s│\n",
 			colwidth-22,
 			"Author",
@@ -308,7 +322,8 @@ func writeTable(
 			"Commits",
 		)
 	} else {
-		fmt.Printf(
+		fmt.Fprintf(
+			w,
 			"│%-*s %-11s %7s│\n",
 			colwidth-22,
 			"Author",
@@ -316,7 +331,7 @@ func writeTable(
 			"Commits",
 		)
 	}
-	fmt.Printf("├%s┤\n", rule)
+	fmt.Fprintf(w, "├%s┤\n", rule)
 
 	// -- Write table rows --
 	totalRows := len(tallies)
@@ -337,7 +352,8 @@ func writeTable(
 		)
 
 		if mode == tally.LinesMode || mode == tally.FilesMode {
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"│%s%s %-11s %7s %7s  %17s%s│\n",
 				alternating,
 				formatAuthor(t, showEmail, colwidth-36-13),
@@ -348,7 +364,8 @@ func writeTable(
 				pretty.Reset,
 			)
 		} else if mode == tally.FirstModifiedMode {
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"│%s%s %-11s %7s%s│\n",
 				alternating,
 				formatAuthor(t, showEmail, colwidth-22),
@@ -357,7 +374,8 @@ func writeTable(
 				pretty.Reset,
 			)
 		} else {
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"│%s%s %-11s %7s%s│\n",
 				alternating,
 				formatAuthor(t, showEmail, colwidth-22),
@@ -370,8 +388,14 @@ func writeTable(
 
 	if numFilteredOut > 0 {
 		msg := fmt.Sprintf("...%s more...", format.Number(numFilteredOut))
-		fmt.Printf("│%-*s│\n", colwidth-2, msg)
+		fmt.Fprintf(w, "│%-*s│\n", colwidth-2, msg)
 	}
 
-	fmt.Printf("└%s┘\n", rule)
+	fmt.Fprintf(w, "└%s┘\n", rule)
+
+	if err := w.Flush(); err != nil {
+		return fmt.Errorf("error writing table to stdout: %w", err)
+	}
+
+	return nil
 }
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 0c3a306..b402dbd 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -1,6 +1,7 @@
 package subcommands
 
 import (
+	"bufio"
 	"context"
 	"fmt"
 	"maps"
@@ -198,8 +199,7 @@ func Tree(
 	}
 
 	lines := toLines(root, ".", 0, "", []bool{}, opts, []treeOutputLine{})
-	printTree(lines, showEmail)
-	return nil
+	return printTree(lines, showEmail)
 }
 
 // Recursively descend tree, turning tree nodes into output lines.
@@ -346,7 +346,9 @@ func fmtTallyMetric(t tally.FinalTally, opts printTreeOpts) string {
 	}
 }
 
-func printTree(lines []treeOutputLine, showEmail bool) {
+func printTree(lines []treeOutputLine, showEmail bool) error {
+	w := bufio.NewWriter(os.Stdout)
+
 	longest := 0
 	for _, line := range lines {
 		indentLen := utf8.RuneCountInString(line.indent)
@@ -371,7 +373,7 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 		}
 
 		if !line.showTally {
-			fmt.Printf("%s%s\n", line.indent, path)
+			fmt.Fprintf(w, "%s%s\n", line.indent, path)
 			continue
 		}
 
@@ -387,7 +389,8 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 		separator := strings.Repeat(".", tallyStart-indentLen-pathLen)
 
 		if line.dimTally {
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"%s%s%s%s%s%s %s\n",
 				line.indent,
 				path,
@@ -398,7 +401,8 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 				line.metric,
 			)
 		} else {
-			fmt.Printf(
+			fmt.Fprintf(
+				w,
 				"%s%s%s%s%s %s%s\n",
 				line.indent,
 				path,
@@ -410,4 +414,10 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 			)
 		}
 	}
+
+	if err := w.Flush(); err != nil {
+		return fmt.Errorf("error writing tree to stdout: %w", err)
+	}
+
+	return nil
 }
-- 
2.43.0


From c8f4eb03406069654cc3743cda7c3612ffb5cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:34 +0000
Subject: [PATCH 46/47] fix: include all of Git's inputs to diffs in cache
 state

Grafts, ignored submodules, the big file threshold, the user's own attributes
file, and settings telling Git not to use replaced commits or to read
attributes from elsewhere all change what Git shows for a commit, but commits
cached before such a change were still used after it.
---
 internal/git/cmd/cmd.go      | 10 ++++---
 internal/git/config/diffs.go | 58 ++++++++++++++++++++++++++++++++++--
 2 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index cf059ea..3349581 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -185,15 +185,17 @@ func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
-// First two lines of output are the paths of the file listing the shallow
-// commits and of the repo-local attributes file. The other lines are the
-// replaced commits and what they are replaced with.
+// First three lines of output are the paths of the files listing the shallow
+// and the grafted commits and of the repo-local attributes file. The other
+// lines are the replaced commits and what they are replaced with.
 func RunRevParseDiffState(ctx context.Context) (*Subprocess, error) {
 	var args = []string{
 		"rev-parse",
 		"--git-path",
 		"shallow",
 		"--git-path",
+		"info/grafts",
+		"--git-path",
 		"info/attributes",
 		"--glob=refs/replace/",
 		"--symbolic-full-name",
@@ -294,7 +296,7 @@ func RunConfigGetDiffState(ctx context.Context) (*Subprocess, error) {
 		"config",
 		"-z",
 		"--get-regexp",
-		`^(diff\..*|core\.attributesfile)$`,
+		`^(diff\..*|submodule\..*\.ignore|attr\.tree|core\.(attributesfile|bigfilethreshold|usereplacerefs))$`,
 	}
 
 	needStdin := false
diff --git a/internal/git/config/diffs.go b/internal/git/config/diffs.go
index 27f2ff5..403a8be 100644
--- a/internal/git/config/diffs.go
+++ b/internal/git/config/diffs.go
@@ -13,6 +13,14 @@ import (
 	"github.com/sinclairtarget/git-who/internal/git/cmd"
 )
 
+// Environment variables that tell Git about replaced commits and attributes
+var diffEnv = []string{
+	"GIT_NO_REPLACE_OBJECTS",
+	"GIT_REPLACE_REF_BASE",
+	"GIT_ATTR_SOURCE",
+	"GIT_ATTR_NOSYSTEM",
+}
+
 // Returns everything that, for the same commit, can change the author or the
 // diffs that Git shows. (Everything but the mailmap, that is.)
 //
@@ -30,14 +38,14 @@ func DiffState(gitRootPath string) (_ []byte, err error) {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
-	// Replaced commits, shallow commits, and repo-local attributes
+	// Replaced, shallow, and grafted commits, and repo-local attributes
 	out, err := runText(cmd.RunRevParseDiffState(ctx))
 	if err != nil {
 		return nil, err
 	}
 
 	for i, line := range strings.Split(out, "\n") {
-		if i < 2 {
+		if i < 3 {
 			writeContent(&w, line)
 		} else {
 			fmt.Fprintln(&w, line)
@@ -57,7 +65,27 @@ func DiffState(gitRootPath string) (_ []byte, err error) {
 
 	fmt.Fprint(&w, out)
 
+	for _, name := range diffEnv {
+		fmt.Fprintf(&w, "%q", os.Getenv(name))
+	}
+
+	// Submodules to ignore
+	writeContent(&w, filepath.Join(gitRootPath, ".gitmodules"))
+
 	// Attributes
+	attributesPath, err := globalAttributesPath()
+	if err != nil {
+		return nil, err
+	}
+
+	if len(attributesPath) > 0 {
+		if !filepath.IsAbs(attributesPath) {
+			// Git runs from the top-level directory
+			attributesPath = filepath.Join(gitRootPath, attributesPath)
+		}
+		writeContent(&w, attributesPath)
+	}
+
 	out, err = runText(cmd.RunLsFilesAttributes(ctx))
 	if err != nil {
 		return nil, err
@@ -75,6 +103,32 @@ func DiffState(gitRootPath string) (_ []byte, err error) {
 	return w.Bytes(), nil
 }
 
+// Looks up the user's attributes file, for all of their repos.
+func globalAttributesPath() (string, error) {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	p, err := runText(
+		cmd.RunConfigGet(ctx, []string{"--type=path", "core.attributesFile"}),
+	)
+	if err != nil {
+		var subprocessErr *cmd.SubprocessErr
+		if !errors.As(err, &subprocessErr) || subprocessErr.ExitCode != 1 {
+			return "", err
+		}
+
+		// Exit code 1 means the setting isn't there
+		configHome := os.Getenv("XDG_CONFIG_HOME")
+		if len(configHome) == 0 {
+			configHome = filepath.Join(os.Getenv("HOME"), ".config")
+		}
+
+		p = filepath.Join(configHome, "git", "attributes")
+	}
+
+	return p, nil
+}
+
 // Writes nothing when there is no file that can be read.
 func writeContent(w io.Writer, path string) {
 	content, err := os.ReadFile(path)
-- 
2.43.0


From 498505c65074705317d43679fbd683dcb720c394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:08 +0000
Subject: [PATCH 47/47] fix: file whose name is that of commits without changes
 is missing from trees

---
 internal/tally/tally.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 7c154b5..38671e4 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -23,7 +23,7 @@ const (
 	FirstModifiedMode
 )
 
-const NoDiffPathname = ".git-who-no-diff-commits"
+const NoDiffPathname = "\x00.git-who-no-diff-commits"
 
 type TallyOpts struct {
 	Mode        TallyMode
@@ -307,8 +307,8 @@ func TallyCommitsByPath(
 			// first parent. Have also seen this happen with an SVN-imported
 			// commit.
 			//
-			// We count these commits under a special pathname we hope never
-			// collides.
+			// We count these commits under a special pathname that cannot
+			// collide, since no real path contains a NUL.
 			tally, ok := pathTallies[NoDiffPathname]
 			if !ok {
 				tally.name = commit.AuthorName
-- 
2.43.0

