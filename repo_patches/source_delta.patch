From 7ed4da1d0bb2bf620f2ccb944bfab8101acc9e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 01/27] fix: SaveSTL reports flush and close errors

---
 primitives/stl.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 8cbcddc..02f5339 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -112,12 +112,16 @@ func loadSTLBinary(file *os.File, count int) (*Mesh, error) {
 	return &mesh, nil
 }
 
-func SaveSTL(path string, mesh *Mesh) error {
+func SaveSTL(path string, mesh *Mesh) (err error) {
 	file, err := os.Create(path)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if closeErr := file.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 	w := bufio.NewWriter(file)
 	header := stlHeader{}
 	header.Count = uint32(len(mesh.Triangles))
@@ -142,6 +146,5 @@ func SaveSTL(path string, mesh *Mesh) error {
 			return err
 		}
 	}
-	w.Flush()
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From e5a1496271c6a9970a51497bc277eaaae54cfff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 02/27] fix: the colorizer reports flush and close errors

---
 cmd/goosli_colorizer/goosli_colorizer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/goosli_colorizer/goosli_colorizer.go b/cmd/goosli_colorizer/goosli_colorizer.go
index e3aca31..ee95c05 100644
--- a/cmd/goosli_colorizer/goosli_colorizer.go
+++ b/cmd/goosli_colorizer/goosli_colorizer.go
@@ -36,7 +36,6 @@ func main() {
 	if err != nil {
 		log.Fatal("failed to save colorize triangles: ", err)
 	}
-	defer file.Close()
 	w := bufio.NewWriter(file)
 
 	err = binary.Write(w, binary.LittleEndian, arr)
@@ -44,5 +43,12 @@ func main() {
 		log.Fatal("failed to write value of colorize triangles: ", err)
 	}
 
-	w.Flush()
+	err = w.Flush()
+	if err != nil {
+		log.Fatal("failed to write colorize triangles: ", err)
+	}
+	err = file.Close()
+	if err != nil {
+		log.Fatal("failed to save colorize triangles: ", err)
+	}
 }
-- 
2.43.0


From 9663dc8c4dbca206e71135ad9622d313a4a4254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 03/27] fix: LoadSTL rejects torn and unparsable models

---
 primitives/stl.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 02f5339..93b437c 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -3,9 +3,11 @@ package primitives
 import (
 	"bufio"
 	"encoding/binary"
+	"fmt"
 	"io"
 	"math"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -56,17 +58,33 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 	var triangles []Triangle
 	var p1, p2, p3, px Point
 	i := 0
+	inFacet, ended := false, false
 	scanner := bufio.NewScanner(file)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
-		if len(line) < 12 || line[0] != 'v' {
-			continue
+		if strings.HasPrefix(line, "facet") {
+			inFacet = true
+		} else if strings.HasPrefix(line, "endfacet") {
+			inFacet = false
+		} else if strings.HasPrefix(line, "endsolid") {
+			ended = true
 		}
-		fields := strings.Fields(line[7:])
-		if len(fields) != 3 {
+		fields := strings.Fields(line)
+		if len(fields) == 0 || fields[0] != "vertex" {
 			continue
 		}
-		px = Point{ParseFloat(fields[0]), ParseFloat(fields[1]), ParseFloat(fields[2])}
+		if len(fields) != 4 {
+			return nil, fmt.Errorf("invalid vertex in stl file: %q", line)
+		}
+		var coords [3]float64
+		for k := range coords {
+			v, err := strconv.ParseFloat(fields[k+1], 32)
+			if err != nil {
+				return nil, fmt.Errorf("invalid vertex in stl file: %v", err)
+			}
+			coords[k] = v
+		}
+		px = Point{coords[0], coords[1], coords[2]}
 		switch i % 3 {
 		case 0:
 			p1 = px
@@ -78,8 +96,17 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 		}
 		i++
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if inFacet || i%3 != 0 {
+		return nil, fmt.Errorf("stl file ends inside a facet")
+	}
+	if i == 0 && !ended {
+		return nil, fmt.Errorf("stl file is neither a complete binary nor an ascii model")
+	}
 	mesh := NewMesh(triangles)
-	return &mesh, scanner.Err()
+	return &mesh, nil
 }
 
 
-- 
2.43.0


From 7622aa5702a23bc2091e0f3de52a1f2599d19dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 04/27] fix: slicing a flat mesh gives no layers instead of a
 panic

---
 slicers/slice_by_vector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 932b607..ebb3552 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -42,6 +42,9 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 
 	minz, maxz := mesh.MinMaxZ(Z)
 	n := int(math.Ceil((maxz - minz) / thickness))
+	if n < 1 { // flat mesh, nothing to slice
+		return nil
+	}
 
 	sh := Z.MulScalar(maxz - minz).MulScalar(1.0 / float64(n))
 
@@ -131,7 +134,7 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 	if len(layers[0].Paths) == 0 {
 		layers = layers[1:]
 	}
-	if len(layers[len(layers)-1].Paths) == 0 {
+	if len(layers) > 0 && len(layers[len(layers)-1].Paths) == 0 {
 		layers = layers[:len(layers)-1]
 	}
 
-- 
2.43.0


From 9e20d8eddaf7f7e0fcd0ebcbb9869649371aae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 05/27] fix: an unreadable planes file fails the run

---
 slicers/vip/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 51677c8..6ba83f0 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -2,6 +2,7 @@ package vip
 
 import (
 	"bufio"
+	"log"
 	"os"
 
 	. "github.com/l1va/goosli/primitives"
@@ -68,8 +69,12 @@ func offset(pth Path, addWallsCount int, nozzle float64, norm Vector) []Path {
 
 func readPlanes(f string) []AnalyzedPlane {
 	file, err := os.Open(f)
-	if err != nil {
+	if os.IsNotExist(err) {
 		println("File reading error: " + err.Error())
+		return nil
+	}
+	if err != nil {
+		log.Fatal("failed to open planes file: ", err)
 	}
 	defer file.Close()
 
@@ -80,7 +85,7 @@ func readPlanes(f string) []AnalyzedPlane {
 	}
 
 	if err := scanner.Err(); err != nil {
-		println("Errors during reading: " + err.Error())
+		log.Fatal("failed to read planes file: ", err)
 	}
 	return ans
 }
-- 
2.43.0


From 0abaa92527d0d21b274657ff16c3ed720aeefda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 06/27] fix: a planes file line that cannot be parsed fails the
 run

---
 slicers/vip/analyze.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index f6bedd7..b9a4f43 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -23,11 +23,21 @@ func (p AnalyzedPlane) String() string {
 func ParsePlane(line string) AnalyzedPlane {
 	p := AnalyzedPlane{}
 	words := strings.Fields(line)
+	if len(words) < 5 {
+		log.Fatalf("failed to parse plane %q: 5 fields expected", line)
+	}
+	number := func(word string) float64 {
+		v, err := strconv.ParseFloat(word[1:], 32)
+		if err != nil {
+			log.Fatalf("failed to parse plane %q: %v", line, err)
+		}
+		return v
+	}
 	var err error
 	if p.tilted, err = strconv.ParseBool(words[3][1:]); err != nil {
-		fmt.Printf("ERROR parsing bool: %v\n", err)
+		log.Fatalf("failed to parse plane %q: %v", line, err)
 	}
-	p.rotz = ParseFloat(words[4][1:])
+	p.rotz = number(words[4])
 	v := AxisZ
 	if p.tilted {
 		v = v.RotateAbout(AxisX, -angleX)
@@ -35,9 +45,9 @@ func ParsePlane(line string) AnalyzedPlane {
 	v = v.RotateAbout(AxisZ, p.rotz)
 	p.Plane = Plane{
 		P: Point{
-			X: ParseFloat(words[0][1:]),
-			Y: ParseFloat(words[1][1:]),
-			Z: ParseFloat(words[2][1:]),
+			X: number(words[0]),
+			Y: number(words[1]),
+			Z: number(words[2]),
 		}, N: v,
 	}
 	return p
-- 
2.43.0


From 63c0a75a0de6715fb63c1e1410f4fb9c6a0b7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 07/27] fix: the debug trace file is left alone while debugging
 is off

---
 debug/debug.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/debug/debug.go b/debug/debug.go
index 7f67e43..64da17a 100644
--- a/debug/debug.go
+++ b/debug/debug.go
@@ -18,6 +18,9 @@ var (
 var cfg = Config()
 
 func RecreateFile() {
+	if !cfg.Debug {
+		return
+	}
 	// delete file
 	var _, err = os.Stat(cfg.DebugFile)
 
-- 
2.43.0


From 37dacfed7bd09bc691cb1748dac824a3b32b318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 08/27] fix: cutting keeps triangles that only touch the plane

---
 helpers/cut_mesh.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index c84ee5c..66897c2 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -2,8 +2,6 @@ package helpers
 
 import (
 	. "github.com/l1va/goosli/primitives"
-	//	"fmt"
-	"log"
 )
 
 //CutMesh mesh in two meshes, first that inFront of plane, second - outFront
@@ -39,8 +37,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 			up = append(up, t)
 		} else if len(inFront) == 2 {
 			line := p.IntersectTriangle(&t)
-			if line == nil {
-				log.Printf("failed to intersect triangle by plane2, skip it: %v, %v\n", t, p)
+			if line == nil { // only touches the plane
+				up = append(up, t)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -53,8 +51,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 
 		} else if len(inFront) == 1 {
 			line := p.IntersectTriangle(&t)
-			if line == nil {
-				log.Printf("failed to intersect triangle by plane1, skip it: %v, %v\n", t, p)
+			if line == nil { // only touches the plane
+				down = append(down, t)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
-- 
2.43.0


From 2c4144a9c03bc86ffe9dfd1f58011bdb4614298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 09/27] fix: the print speed is restored after bed movements

---
 gcode/cmds.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 009be9c..8f654ae 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -48,6 +48,7 @@ func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings)
 	b.WriteString("G92 E0 \n")
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
+	state.feedrate = 300
 	state.t2 = 0
 	return state
 }
@@ -66,6 +67,7 @@ func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) Stat
 	b.WriteString("G92 E0 \n")
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
+	state.feedrate = 300
 	state.t2 = 60
 	return state
 
@@ -101,6 +103,7 @@ func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State
 	b.WriteString("G92 E0 \n")
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
+	state.feedrate = 300
 	state.t1 = r.Angle
 	return state
 
-- 
2.43.0


From 90efa0bc087cf74d37e036cdbb391f09e491c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 10/27] fix: retraction is relative to the extruder position
 and undone before printing

---
 gcode/cmds.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 8f654ae..294b1b2 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -179,12 +179,15 @@ func printSpeedToGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {
 	return state
 }
 
-func retractionToGCode(b *bytes.Buffer, sett GcodeSettings) {
+// retractionToGCode moves the filament to the given distance behind the current extruder position
+func retractionToGCode(b *bytes.Buffer, state State, sett GcodeSettings, distance float64) State {
 	if !sett.Retraction {
-		return
+		return state
 	}
 
-	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(-sett.RetractionDistance) + "\n")
+	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(state.eOff-distance) + "\n")
+	state.feedrate = sett.RetractionSpeed
+	return state
 }
 
 func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State, b *bytes.Buffer) State {
@@ -196,9 +199,12 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
-		retractionToGCode(b, sett)
+		state = retractionToGCode(b, state, sett, sett.RetractionDistance)
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
+		// Undo the retraction and restore the printing speed
+		state = retractionToGCode(b, state, sett, 0)
+		state = printSpeedToGCode(state, sett, b)
 
 		for i := 1; i < len(p.Points); i++ {
 			p1 := p.Points[i-1]
-- 
2.43.0


From 42012a64e48f831b738d3d3e1b505a7c097583b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 11/27] fix: cutting keeps triangles whose edge lies in the
 plane whole

---
 helpers/cut_mesh.go | 60 +++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 66897c2..961525b 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -36,28 +36,30 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		if len(inFront) == 3 {
 			up = append(up, t)
 		} else if len(inFront) == 2 {
-			line := p.IntersectTriangle(&t)
-			if line == nil { // only touches the plane
+			t1, t2, t3 := startFrom(outFront[0], t)
+			line := Line{P1: edgePoint(p, t1, t2), P2: edgePoint(p, t1, t3)}
+			if line.P1.Equal(line.P2) { // only touches the plane
 				up = append(up, t)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
 
-			ts := splitOnThree(outFront[0], *line, t)
+			ts := splitOnThree(t1, t2, t3, line)
 
 			up = append(up, ts[1])
 			up = append(up, ts[2])
 			down = append(down, ts[0])
 
 		} else if len(inFront) == 1 {
-			line := p.IntersectTriangle(&t)
-			if line == nil { // only touches the plane
+			t1, t2, t3 := startFrom(inFront[0], t)
+			line := Line{P1: edgePoint(p, t1, t2), P2: edgePoint(p, t1, t3)}
+			if line.P1.Equal(line.P2) { // only touches the plane
 				down = append(down, t)
 				continue
 			}
-			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
+			inters = append(inters, Path{Points: []Point{line.P2, line.P1}})
 
-			ts := splitOnThree(inFront[0], *line, t)
+			ts := splitOnThree(t1, t2, t3, line)
 
 			up = append(up, ts[0])
 			down = append(down, ts[1])
@@ -95,27 +97,33 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	return &resUp, &resDown, nil
 }
 
-// p1 - point that from triangle 1
-// ans consist of 3 triangle: 1 leaves as triangle, 2 and 3 - triangles from quadrangle
-func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
-	var ans []Triangle
-	lp1 := line.P1
-	lp2 := line.P2
-	t1 := t.P1
-	t2 := t.P2
-	t3 := t.P3
-	if t2.Equal(p1) {
-		t1, t2, t3 = t2, t3, t1
-	} else if t3.Equal(p1) {
-		t1, t2, t3 = t3, t1, t2
+// startFrom - points of the triangle in their order, p1 is the first
+func startFrom(p1 Point, t Triangle) (Point, Point, Point) {
+	if t.P2 == p1 {
+		return t.P2, t.P3, t.P1
+	} else if t.P3 == p1 {
+		return t.P3, t.P1, t.P2
 	}
+	return t.P1, t.P2, t.P3
+}
 
-	if AlmostZero(t1.VectorTo(t2).Cross(t1.VectorTo(lp2)).Length()) {
-		// lp2 lies on t1->t2 vector, but should lp1 lie
-		lp1, lp2 = lp2, lp1
+// edgePoint - point of the edge in the plane, the ends are on different sides of it
+func edgePoint(p Plane, p1, p2 Point) Point {
+	if !p.PointInFront(p1) { // the same point for both triangles of the edge
+		p1, p2 = p2, p1
 	}
-	ans = append(ans, NewTriangle(t1, lp1, lp2))
-	ans = append(ans, NewTriangle(lp1, t2, t3))
-	ans = append(ans, NewTriangle(t3, lp2, lp1))
+	d1 := p.P.VectorTo(p1).Dot(p.N)
+	d2 := p.P.VectorTo(p2).Dot(p.N)
+	return p1.Shift(p1.VectorTo(p2).MulScalar(d1 / (d1 - d2))).RoundPlaces(8)
+}
+
+// t1 - point that from triangle 1
+// line - goes from the edge t1->t2 to the edge t1->t3
+// ans consist of 3 triangle: 1 leaves as triangle, 2 and 3 - triangles from quadrangle
+func splitOnThree(t1, t2, t3 Point, line Line) []Triangle {
+	var ans []Triangle
+	ans = append(ans, NewTriangle(t1, line.P1, line.P2))
+	ans = append(ans, NewTriangle(line.P1, t2, t3))
+	ans = append(ans, NewTriangle(t3, line.P2, line.P1))
 	return ans
 }
-- 
2.43.0


From 541b5df4cf555292c2443ec7d4aa3ad0bb8c638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 12/27] fix: the angle of opposite vectors is 180 degrees
 despite rounding

---
 primitives/vector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 6b59534..ef9ad7b 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -82,7 +82,10 @@ func (a Vector) Reverse() Vector {
 
 func (a Vector) Angle(b Vector) float64 {
 	v := a.Dot(b) / a.Length() / b.Length()
-	if v < -1 || v > 1 {
+	if v < -1 { // rounding of opposite vectors
+		return 180
+	}
+	if v > 1 {
 		return 0
 	}
 	return math.Acos(v) * 180 / math.Pi
-- 
2.43.0


From 35761cdd5e974a11ed3b3c0d8dab98fdfd40dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 13/27] fix: cutting splits sliver triangles that cross the
 plane

---
 helpers/cut_mesh.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 961525b..53f3824 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -38,11 +38,13 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		} else if len(inFront) == 2 {
 			t1, t2, t3 := startFrom(outFront[0], t)
 			line := Line{P1: edgePoint(p, t1, t2), P2: edgePoint(p, t1, t3)}
-			if line.P1.Equal(line.P2) { // only touches the plane
+			if line.P1.Equal(line.P2) && line.P1.Equal(t1) { // only touches the plane
 				up = append(up, t)
 				continue
 			}
-			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
+			if !line.P1.Equal(line.P2) {
+				inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
+			}
 
 			ts := splitOnThree(t1, t2, t3, line)
 
@@ -53,11 +55,13 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		} else if len(inFront) == 1 {
 			t1, t2, t3 := startFrom(inFront[0], t)
 			line := Line{P1: edgePoint(p, t1, t2), P2: edgePoint(p, t1, t3)}
-			if line.P1.Equal(line.P2) { // only touches the plane
+			if line.P1.Equal(line.P2) && line.P1.Equal(t1) { // only touches the plane
 				down = append(down, t)
 				continue
 			}
-			inters = append(inters, Path{Points: []Point{line.P2, line.P1}})
+			if !line.P1.Equal(line.P2) {
+				inters = append(inters, Path{Points: []Point{line.P2, line.P1}})
+			}
 
 			ts := splitOnThree(t1, t2, t3, line)
 
-- 
2.43.0


From c417f9291e93fd396177303ba5f76fe6210765d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 14/27] fix: small coordinate steps no longer let the printer
 drift off the path

---
 primitives/point.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primitives/point.go b/primitives/point.go
index 681115b..4307f7a 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -28,15 +28,15 @@ func (a Point) MapKey() Point {
 
 func (a Point) StringGcode(b Point) string {
 	s_form := ""
-	if math.Abs(a.X-b.X) >= 0.001 {
+	if StrF(a.X) != StrF(b.X) {
 		s_form = fmt.Sprintf("%sX%s ", s_form, StrF(a.X))
 	}
 
-	if math.Abs(a.Y-b.Y) >= 0.001 {
+	if StrF(a.Y) != StrF(b.Y) {
 		s_form = fmt.Sprintf("%sY%s ", s_form, StrF(a.Y))
 	}
 
-	if math.Abs(a.Z-b.Z) >= 0.001 {
+	if StrF(a.Z) != StrF(b.Z) {
 		s_form = fmt.Sprintf("%sZ%s", s_form, StrF(a.Z))
 	}
 	return s_form
-- 
2.43.0


From edf26a635e2095ce6d34ef91c686221cc673eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 15/27] fix: sections are joined at equal points whatever their
 rounding

---
 primitives/path.go | 49 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/primitives/path.go b/primitives/path.go
index e1b1cd0..10cefe6 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -105,8 +105,35 @@ func toslice(m map[Point]Path) []Path {
 }
 
 type sortp struct {
-	P   Point
-	Ind int
+	P    Point
+	Ind  int
+	rank [3]int
+}
+
+//Rank the ends by every coordinate: equal points get the same ranks, so they are next to each other
+//in the order of the ranks (almost equal coordinates are no good for sorting themselves)
+func rankEnds(a []sortp) {
+	coords := []func(p Point) float64{
+		func(p Point) float64 { return p.X },
+		func(p Point) float64 { return p.Y },
+		func(p Point) float64 { return p.Z },
+	}
+	order := make([]int, len(a))
+	for i := range order {
+		order[i] = i
+	}
+	for c, coord := range coords {
+		sort.Slice(order, func(i, j int) bool {
+			return coord(a[order[i]].P) < coord(a[order[j]].P)
+		})
+		rank := 0
+		for i := range order {
+			if i > 0 && !AlmostZero(coord(a[order[i]].P)-coord(a[order[i-1]].P)) {
+				rank++
+			}
+			a[order[i]].rank[c] = rank
+		}
+	}
 }
 
 //Join pathes by first or last points if possible
@@ -125,16 +152,20 @@ func JoinPaths3(p []Path) []Path {
 			Ind: i,
 		}
 	}
+	rankEnds(a)
 	sort.Slice(a, func(i, j int) bool {
-		b := a[i].P
-		c := a[j].P
-		return b.X < c.X || (AlmostZero(b.X-c.X) && b.Y < c.Y) || (AlmostZero(b.X-c.X) && AlmostZero(b.Y-c.Y) && b.Z < c.Z)
+		b := a[i].rank
+		c := a[j].rank
+		return b[0] < c[0] || (b[0] == c[0] && b[1] < c[1]) || (b[0] == c[0] && b[1] == c[1] && b[2] < c[2])
 	})
 
-	for i := 1; i < len(a); i++ {
-		b := a[i-1]
-		c := a[i]
-		if b.P.Equal(c.P) {
+	for i := range a {
+		b := a[i]
+		for k := i + 1; k < len(a) && a[k].rank == b.rank; k++ {
+			c := a[k]
+			if !b.P.Equal(c.P) {
+				continue
+			}
 			j1 := b.Ind
 			for w[j1] != j1 {
 				j1 = w[j1]
-- 
2.43.0


From c82e83086e840c00c83895e047d9a99ce74c5828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 16/27] fix: choosing the strategy copes with no layers and no
 outer paths

---
 slicers/vip/slice_main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_main.go b/slicers/vip/slice_main.go
index 4e3786e..03b6aaa 100644
--- a/slicers/vip/slice_main.go
+++ b/slicers/vip/slice_main.go
@@ -26,15 +26,18 @@ func Slice(mesh *Mesh, settings Settings) gcode.Gcode {
 	}
 
 	layers := SliceByVector(mesh, AxisZ, settings)
+	if len(layers) == 0 { // nothing to print
+		return gcode.NewGcode(*settings.GcodeSettings)
+	}
 
 	op := getAllOutsidePathes(layers[0])
 	if len(op) == 2 {
 		return SliceBridge(mesh, settings, layers)
 	}
-	println("outside pathes: ", len(op), len(op[0].Points))
+	println("outside pathes: ", len(op))
 	if len(op) == 1 && isRotation(op[0]) {
 		op = getAllOutsidePathes(layers[len(layers)-1])
-		println("outside pathes: ", len(op), len(op[0].Points))
+		println("outside pathes: ", len(op))
 		if len(op) == 1 && isRotation(op[0]) {
 			return SliceRotation(mesh, settings, layers)
 		}
-- 
2.43.0


From b4a555ec9d462cfc35f24fc66026e7c7643e4c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 17/27] fix: simplifying an empty line gives an empty line

---
 helpers/simplify_line.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers/simplify_line.go b/helpers/simplify_line.go
index 408512b..7f64c9a 100644
--- a/helpers/simplify_line.go
+++ b/helpers/simplify_line.go
@@ -6,6 +6,9 @@ import (
 
 //SimplifyLine - DouglasPeucker algorithm of line simplification
 func SimplifyLine(ps []Point, epsilon float64) []Point {
+	if len(ps) == 0 {
+		return nil
+	}
 	// Find the point with the maximum distance
 	dmax := 0.0
 	index := 0
-- 
2.43.0


From 88f94556cbf8621b7b41a33b2314034c1d216b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 18/27] fix: bridges and rotations without an overhang are
 sliced to the top

---
 slicers/vip/slice_bridge.go   | 6 ++++++
 slicers/vip/slice_rotation.go | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 29d302d..ffaa8fc 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -33,6 +33,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	}
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
+	if i == len(layers) { // nothing overhangs
+		return gcd
+	}
 
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, down, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
@@ -73,6 +76,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 func failExistBridge(prevLayer, curLayer Layer) *Plane {
 
+	if len(getAllOutsidePathes(prevLayer)) < 2 || len(getAllOutsidePathes(curLayer)) < 2 {
+		return nil
+	}
 	prevP1, prevP2 := getTwoOutsidePathes(prevLayer)
 	p1, p2 := getTwoOutsidePathes(curLayer)
 	prevCp1 := FindCentroid(prevP1)
diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index ec8bf0c..575565f 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -31,6 +31,9 @@ func SliceRotation(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	}
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
+	if i == len(layers) { // nothing overhangs
+		return gcd
+	}
 
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, _, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
@@ -66,6 +69,10 @@ func failRotaion(prevLayer, curLayer Layer) bool {
 		println("curLayer has not one path: ", len(curLayer.Paths))
 	}
 
+	if len(prevLayer.Paths) == 0 || len(curLayer.Paths) == 0 {
+		return false
+	}
+
 	anyP := prevLayer.Paths[0].Points[0]
 	//nearestP := curLayer.Paths[0].Lines[0].P1
 	//d := anyP.DistanceTo(nearestP)
-- 
2.43.0


From 84042aad5c3b8ffe1a2c1d811a45b17eb09699b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 19/27] fix: a model of one layer is printed by the default and
 five-axis strategies

---
 slicers/slice_5axes.go       | 9 +++++----
 slicers/vip/slice_default.go | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index d2cc184..724bad6 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -42,18 +42,19 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 	rotated := false
 	angleZ := 0.0
 	down := mesh
-	for i < len(layers) {
+	for i <= len(layers) {
 		if i == 0 {
 			i++
 			continue
 		}
+		if i == len(layers) { // nothing overhangs any more
+			gcd.AddLayers(toAdd)
+			break
+		}
 
 		newPlane := CalculateFails(layers[i-1], layers[i])
 		if newPlane == nil {
 			i++
-			if i == len(layers) {
-				gcd.AddLayers(toAdd)
-			}
 		} else {
 			gcd.AddLayers(toAdd[:i])
 
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 238cb40..6914fe1 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -34,15 +34,16 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	//settings.LayerCount = 5
 	//return CommandsWithTemplates(cmds, settings)
 
-	for i < len(layers) {
+	for i <= len(layers) {
+		if i == len(layers) { // nothing overhangs any more
+			gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
+			break
+		}
 
 		newPlane := CalculateFails(layers[i-1], layers[i])
 
 		if newPlane == nil {
 			i++
-			if i == len(layers) {
-				gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
-			}
 		} else {
 			mesh, down, err = helpers.CutMesh(mesh, *newPlane)
 			if err != nil {
-- 
2.43.0


From 431e81d751191dff452eeeb127e8255d96c72763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 20/27] fix: the analyzer looks up failing triangles in the
 mesh they were found in

---
 slicers/vip/analyze.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index b9a4f43..f7e79de 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -70,7 +70,7 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		var t *Triangle
 		for i, fail := range fails {
 			if fail {
-				t2 := mesh.Triangles[i]
+				t2 := curMesh.Triangles[i]
 				if t2.P1.Z < 0.01 && t2.P2.Z < 0.01 && t2.P3.Z < 0.01 { // it is first layer, skip
 					continue
 				}
-- 
2.43.0


From fb78b9bb7288d1b3f984d64e74b2bc51c92d1f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:04 +0000
Subject: [PATCH 21/27] fix: the bed is tilted towards the overhang whatever
 direction it faces

---
 primitives/vector.go         | 5 +++++
 slicers/slice_5axes.go       | 4 ++--
 slicers/slice_by_profile.go  | 2 +-
 slicers/vip/slice_bridge.go  | 8 +++-----
 slicers/vip/slice_default.go | 2 +-
 5 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index ef9ad7b..d64f971 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -91,6 +91,11 @@ func (a Vector) Angle(b Vector) float64 {
 	return math.Acos(v) * 180 / math.Pi
 }
 
+// Heading is the angle in degrees of the vector's horizontal part, counter-clockwise from AxisX.
+func (a Vector) Heading() float64 {
+	return math.Atan2(a.Y, a.X) * 180 / math.Pi
+}
+
 func (a Vector) ProjectOn(b Vector) Vector {
 	bl := b.LengthSquare() // because result = b.MulScalar(projectLen/|b|), where projectLen = b.Dot(a)/|b|
 	if bl == 0 {
diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 724bad6..e10f684 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -114,7 +114,7 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 				gcd.Add(gcode.RotateXZ{})
 				rotated = false
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.Heading() + 90
 				print(angleZ)
 				simpMesh = simpMesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				simpMesh = simpMesh.Rotate(RotationAroundX(angleX), OriginPoint)
@@ -159,7 +159,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
 				pi := pl.IntersectPathCodirectedWith(prevPath, v)
 				if pi != nil {
-					angleZ := prevCp.VectorTo(*pi).Angle(AxisX) + 90
+					angleZ := 90 - prevCp.VectorTo(*pi).Heading()
 					norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angleZ))
 					return &Plane{P: *pi, N: norm}
 				}
diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 6313364..012d669 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -34,7 +34,7 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 		} else {
 			down = up
 		}
-		angleZ := v.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+		angleZ := v.Heading() + 90
 		angleX := v.Angle(AxisZ)
 
 		println("angles: ", angleX, " ", angleZ, "")
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index ffaa8fc..b565275 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -51,7 +51,7 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	gcd.AddLayers(PrepareLayers(oneLeg, settings, fillPlanes, fullFillPlanes))
 
 	// Rotate bed
-	angleZ := newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+	angleZ := newPlane.N.Heading() + 90
 	mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 	mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
 	gcd.Add(gcode.RotateZ{Angle: angleZ})
@@ -99,8 +99,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip1, prevIp1, plane, p1, prevP1)
 	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
 		println(AxisZ.Angle(prevIp1.VectorTo(*ip1)))
-		angle := AxisX.Angle(cp1.VectorTo(cp2))
-		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
+		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(90 - cp1.VectorTo(cp2).Heading()))
 		pl := Plane{*prevIp1, norm}
 		return &pl
 	}
@@ -112,8 +111,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip2, prevIp2, plane, p2, prevP2)
 	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
 		println(AxisZ.Angle(prevIp2.VectorTo(*ip2)))
-		angle := AxisX.Angle(cp2.VectorTo(cp1))
-		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
+		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(90 - cp2.VectorTo(cp1).Heading()))
 		pl := Plane{*prevIp2, norm}
 		return &pl
 	}
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 6914fe1..2aa1dbe 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -70,7 +70,7 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 					fullFillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
 				}
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.Heading() + 90
 				println(angleZ)
 				mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
-- 
2.43.0


From 45d3d1458c50dcdcd625a48dd2379615ab838b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 22/27] fix: the analyzer turns its planes towards the overhang
 they support

---
 slicers/vip/analyze.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index f7e79de..098a016 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -99,8 +99,8 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		if curPlane.tilted {
 			curPlane = AnalyzedPlane{Plane{P: p, N: AxisZ}, false, 0}
 		} else {
-			angle := t.N.ProjectOnPlane(PlaneXY).Angle(AxisX) - 90
-			a := t.N.ProjectOnPlane(PlaneXY)
+			angle := t.N.Heading() - 90
+			a := AxisX.RotateAbout(AxisZ, t.N.Heading())
 			b := a.Rotate(RotationAroundZ(90))
 			norm := a.RotateAbout(b, 90-angleX)
 			println("angle x:", angle, norm.Angle(AxisX), norm.ProjectOnPlane(PlaneXY).Angle(AxisX))
-- 
2.43.0


From e5ea2c5b12f83eb5c9bfbcc44f7adf89ba97dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 23/27] fix: receding walls do not overhang

---
 slicers/slice_5axes.go      | 3 ++-
 slicers/vip/slice_bridge.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index e10f684..44a8b1c 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -172,7 +172,8 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				if curPi != nil {
 					prevPi := pl.IntersectPathCodirectedWith(*prevPath, curX)
 					if prevPi != nil {
-						if AxisZ.Angle(prevPi.VectorTo(*curPi)) > failAngle {
+						step := prevPi.VectorTo(*curPi)
+						if AxisZ.Angle(step) > failAngle && step.CodirectedWith(curX) { // a receding wall does not overhang
 							failsCur = append(failsCur, float64(j*angleDist))
 						}
 					}
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index b565275..9f69671 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -97,7 +97,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 	prevIp1 := plane.IntersectPathCodirectedWith(prevP1, cp1.VectorTo(cp2))
 	if ip1 == nil || prevIp1 == nil {
 		log.Println("could not find path intersections with plane: ", ip1, prevIp1, plane, p1, prevP1)
-	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
+	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle && prevIp1.VectorTo(*ip1).CodirectedWith(cp1.VectorTo(cp2)) {
 		println(AxisZ.Angle(prevIp1.VectorTo(*ip1)))
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(90 - cp1.VectorTo(cp2).Heading()))
 		pl := Plane{*prevIp1, norm}
@@ -109,7 +109,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 	prevIp2 := plane.IntersectPathCodirectedWith(prevP2, cp2.VectorTo(cp1))
 	if ip2 == nil || prevIp2 == nil {
 		log.Println("could not find path intersections with plane: ", ip2, prevIp2, plane, p2, prevP2)
-	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
+	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle && prevIp2.VectorTo(*ip2).CodirectedWith(cp2.VectorTo(cp1)) {
 		println(AxisZ.Angle(prevIp2.VectorTo(*ip2)))
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(90 - cp2.VectorTo(cp1).Heading()))
 		pl := Plane{*prevIp2, norm}
-- 
2.43.0


From 817e6b5449d1dd03f4319510ec2a5ae8ceccdedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 24/27] fix: an outline is looked for on the height of the
 layer below it

---
 slicers/slice_5axes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 44a8b1c..f612568 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -216,6 +216,7 @@ func findPrevPath(prevP Point, prevLayer Layer) *Path {
 				continue
 			}
 		}
+		prevP.Z = pth.Points[0].Z // look at it on the height of the layer
 		if prevP.Inside(pth) {
 			return &pth
 		}
-- 
2.43.0


From 8c201e7bcd42d08405ddcdb0b9d7a3999e680fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 25/27] fix: the analyzer does not take cuts for overhangs

---
 slicers/vip/analyze.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index 098a016..e3bb372 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -71,7 +71,7 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		for i, fail := range fails {
 			if fail {
 				t2 := curMesh.Triangles[i]
-				if t2.P1.Z < 0.01 && t2.P2.Z < 0.01 && t2.P3.Z < 0.01 { // it is first layer, skip
+				if supported(t2, ans) { // it is first layer, skip
 					continue
 				}
 				if t == nil || t.MinZ(curPlaneV) > t2.MinZ(curPlaneV) {
@@ -121,3 +121,16 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		//return ans
 	}
 }
+
+// supported - does the triangle lie on the bed or on one of the cuts, what was cut off is printed before
+func supported(t Triangle, cuts []AnalyzedPlane) bool {
+	lies := func(pl Plane) bool {
+		return pl.P.VectorTo(t.P1).Dot(pl.N) < 0.01 && pl.P.VectorTo(t.P2).Dot(pl.N) < 0.01 && pl.P.VectorTo(t.P3).Dot(pl.N) < 0.01
+	}
+	for _, cut := range cuts {
+		if lies(cut.Plane) {
+			return true
+		}
+	}
+	return lies(PlaneXY)
+}
-- 
2.43.0


From b29f6e0f35d23ab9a2c9e70b58d95659d9e9e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 26/27] fix: the pieces of a cut triangle keep its normal

---
 helpers/cut_mesh.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 53f3824..5ca190f 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -46,7 +46,7 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 				inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
 			}
 
-			ts := splitOnThree(t1, t2, t3, line)
+			ts := splitOnThree(t1, t2, t3, line, t.N)
 
 			up = append(up, ts[1])
 			up = append(up, ts[2])
@@ -63,7 +63,7 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 				inters = append(inters, Path{Points: []Point{line.P2, line.P1}})
 			}
 
-			ts := splitOnThree(t1, t2, t3, line)
+			ts := splitOnThree(t1, t2, t3, line, t.N)
 
 			up = append(up, ts[0])
 			down = append(down, ts[1])
@@ -123,11 +123,12 @@ func edgePoint(p Plane, p1, p2 Point) Point {
 
 // t1 - point that from triangle 1
 // line - goes from the edge t1->t2 to the edge t1->t3
+// n - normal of the triangle, that of a sliver can not be calculated
 // ans consist of 3 triangle: 1 leaves as triangle, 2 and 3 - triangles from quadrangle
-func splitOnThree(t1, t2, t3 Point, line Line) []Triangle {
+func splitOnThree(t1, t2, t3 Point, line Line, n Vector) []Triangle {
 	var ans []Triangle
-	ans = append(ans, NewTriangle(t1, line.P1, line.P2))
-	ans = append(ans, NewTriangle(line.P1, t2, t3))
-	ans = append(ans, NewTriangle(t3, line.P2, line.P1))
+	ans = append(ans, Triangle{n, t1, line.P1, line.P2})
+	ans = append(ans, Triangle{n, line.P1, t2, t3})
+	ans = append(ans, Triangle{n, t3, line.P2, line.P1})
 	return ans
 }
-- 
2.43.0


From ddea39c2399944f6d3e72da660e666c62be0f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 27/27] fix: a point does not overhang

---
 slicers/slice_5axes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index f612568..eb69eff 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -138,6 +138,9 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 	rm := RotationAroundZ(float64(angleDist))
 
 	for _, pth := range curLayer.Paths {
+		if len(pth.Points) < 4 { // the tip of the model has no area
+			continue
+		}
 		curCp := FindCentroid(pth)
 		if len(pth.Points) > 1 { //skip pth if it is just a hole
 			p1 := pth.Points[0]
-- 
2.43.0

