#!/usr/bin/env python3
"""refactor.py [NAME...]: edits of /repo that keep its behaviour (some change the order of floating point
operations, or which of several equal heap entries comes first).  Each is made in a copy, has to build and
pass the tests there, and then every check has to stay quiet.  Development tool; no check uses it."""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from registry import CHECKS
B, L, F, H, M, S, O = ("Boundary.cpp", "LevelSet.cpp", "FastMarchingMethod.cpp", "Heap.cpp", "Mesh.cpp", "Sensitivity.cpp", "Optimise.cpp")
R = {}   # name -> list of (file, function text -> text)


def sub(old, new, count=0):
    def f(t):
        assert old in t, old
        return t.replace(old, new) if not count else t.replace(old, new, count)
    return f


def rsub(pat, new):
    def f(t):
        t2, n = re.subn(pat, new, t, flags=re.S)
        assert n, pat
        return t2
    return f


SEG = (r"// Compute the length of the boundary segment\.\s*segment\.length = segmentLength\(segment\);\s*// Update total boundary length\.\s*"
       r"length \+= segment\.length;\s*// Create element to segment lookup\.\s*levelSet\.mesh\.elements\[i\]\.boundarySegments\[[^\n]*\n\s*"
       r"levelSet\.mesh\.elements\[i\]\.nBoundarySegments\+\+;\s*// Add segment to vector\.\s*segments\.push_back\(segment\);\s*nSegments\+\+;")
R["segment-helper"] = [(B, rsub(SEG, "addSegment(levelSet.mesh, segment);")),
                       (B, sub("    double Boundary::segmentLength(", "    void Boundary::addSegment(Mesh& mesh, BoundarySegment& segment)\n    {\n        segment.length = segmentLength(segment);\n"
                               "        Element& element = mesh.elements[segment.element];\n        element.boundarySegments[element.nBoundarySegments++] = nSegments++;\n"
                               "        segments.push_back(segment);\n        length += segment.length;\n    }\n\n    double Boundary::segmentLength(", 1)),
                       ("Boundary.h", sub("        double segmentLength(", "        void addSegment(Mesh&, BoundarySegment&);\n\n        double segmentLength(", 1))]
R["length-at-end"] = [(B, sub("length += segment.length;", "")),
                      (B, sub("        computePointLengths();\n    }\n\n    void Boundary::computeNormal", "        computePointLengths();\n        for (unsigned int i=nSegments;i>0;i--) length += segments[i-1].length;\n    }\n\n    void Boundary::computeNormal"))]
R["hypot"] = [(B, sub("return (sqrt(dx*dx + dy*dy));", "return std::hypot(dx, dy);")), (B, sub("length += sqrt(dx*dx + dy*dy);", "length += std::hypot(dx, dy);"))]
R["normal-weights"] = [(B, sub("points[point].normal.x += xNormal / rSqd;", "double wt = 1.0 / rSqd; points[point].normal.x += xNormal * wt;")),
                       (B, sub("points[point].normal.y += yNormal / rSqd;", "points[point].normal.y += yNormal * wt;")),
                       (B, sub("weight[point] += 1.0 / rSqd;", "weight[point] += wt;")),
                       (B, sub("points[i].normal.x /= weight[i];\n                points[i].normal.y /= weight[i];", ""))]
R["point-lengths"] = [(B, sub("points[segments[i].start].length += 0.5 * segments[i].length;", "points[segments[i].start].length += segments[i].length / 2;"))]
R["status-early"] = [(B, sub("if (std::abs((*signedDistance)[i]) < 1e-6)\n            {\n                mesh.nodes[i].status = NodeStatus::BOUNDARY;\n            }\n            else if ((*signedDistance)[i] < 0)\n            {\n                mesh.nodes[i].status = NodeStatus::OUTSIDE;\n            }\n            else mesh.nodes[i].status = NodeStatus::INSIDE;",
                             "const double phi = (*signedDistance)[i];\n            mesh.nodes[i].status = phi >= 1e-6 ? NodeStatus::INSIDE : phi <= -1e-6 ? NodeStatus::OUTSIDE : NodeStatus::BOUNDARY;"))]
R["cut-point"] = [(B, sub("double d = (*signedDistance)[n1]\n                                     / ((*signedDistance)[n1] - (*signedDistance)[n2]);",
                          "double d = 1.0 / (1.0 - (*signedDistance)[n2] / (*signedDistance)[n1]);"))]
R["frozen-inverse"] = [(F, sub("if (signedDistanceCopy[i] < 0) (*signedDistance)[i] = -sqrt(1.0 / distSum);\n                    else (*signedDistance)[i] = sqrt(1.0 / distSum);",
                               "(*signedDistance)[i] = std::copysign(1.0 / sqrt(distSum), signedDistanceCopy[i]);"))]
R["half-b"] = [(F, sub("r0 = (-b + sqrt(discrim)) / (2.0 * a);\n            r1 = (-b - sqrt(discrim)) / (2.0 * a);", "double inv = 0.5 / a, rt = sqrt(discrim) * inv;\n            r0 = -b * inv + rt;\n            r1 = -b * inv - rt;"))]
R["heap-ties"] = [(H, sub("if (distance[heap[rightPos]] < distance[heap[childPos]])", "if (distance[heap[rightPos]] <= distance[heap[childPos]])")),
                  (H, sub("if (distance[newItem] < distance[parent])", "if (distance[newItem] < distance[parent])"))]
R["heap-set"] = [(H, rsub(r"if \(newDistance > oldDistance\)\s*\{\s*siftUp\(pos\);\s*\}\s*if \(distance\[heap\[pos\]\] != newDistance\)\s*\{\s*if \(isTest\) test\(\);\s*return;\s*\}\s*siftDown\(0, pos\);",
                          "if (newDistance > oldDistance) siftUp(pos); else siftDown(0, pos);"))]
R["heap-swap"] = [(H, sub("            if (distance[newItem] < distance[parent])\n            {\n                // Move item down the heap.\n                heap[pos] = parent;\n                backPointer[parent] = pos;\n                pos = parentPos;\n\n                continue;\n            }\n            break;",
                          "            if (distance[newItem] >= distance[parent]) break;\n            std::swap(heap[pos], heap[parentPos]);\n            backPointer[heap[pos]] = pos;\n            backPointer[heap[parentPos]] = parentPos;\n            pos = parentPos;")),
                  (H, sub("namespace slsm\n{", "#include <utility>\nnamespace slsm\n{", 1))]
R["toFreeze-vector"] = [(F, sub("std::vector<unsigned int> toFreeze(mesh.nNodes);", "std::vector<unsigned int> toFreeze;")), (F, sub("nFrozen = 0;\n\n            // Pop top", "nFrozen = 0;\n            toFreeze.clear();\n\n            // Pop top")),
                        (F, sub("toFreeze[nFrozen] = addr;", "toFreeze.push_back(addr);")), (F, sub("toFreeze[nFrozen] = l_addr;", "toFreeze.push_back(l_addr);"))]
R["one-pop-at-a-time"] = [(F, sub("if (!heap->empty() && (value == heap->peek()))", "if (false)"))]
R["trial-helper"] = [(F, rsub(r"if \(isVelocity\)\s*\{\s*// Node lies inside the narrow band region\.\s*if \(mesh\.nodes\[i\]\.isActive\)\s*\{(.*?)\n {36}\}\s*\}\s*else\s*\{.*?heap->push\(i, std::abs\(\(\*signedDistance\)\[i\]\)\);\s*\}", r"if (!isVelocity || mesh.nodes[i].isActive) {\1 }"))]
R["velocity-mean"] = [(F, sub("(*velocity)[node] = numerator / denominator;", "(*velocity)[node] = vel[0] * (dist[0] / denominator) + vel[1] * (dist[1] / denominator);"))]
R["upwind-second"] = [(F, sub("double tp = oneThird*(4*dist1 - dist2);", "double tp = dist1 + oneThird*(dist1 - dist2);"))]
R["area-centre"] = [(L, sub("area += vertices[i].x * vertices[j].y;\n            area -= vertices[j].x * vertices[i].y;", "area += (vertices[i].x - centre.x) * (vertices[j].y - centre.y) - (vertices[j].x - centre.x) * (vertices[i].y - centre.y);"))]
R["area-sort-angle"] = [(L, rsub(r"std::sort\(vertices\.begin\(\), vertices\.begin\(\) \+ nVertices, std::bind\(.*?centre\)\);", "std::sort(vertices.begin(), vertices.begin() + nVertices, [&centre](const Coord& a, const Coord& b) { return atan2(a.y - centre.y, a.x - centre.x) < atan2(b.y - centre.y, b.x - centre.x); });"))]
R["weno-factored"] = [(L, rsub(r"double w1 = alpha1 / totalWeight;.*?grad \*= \(1\.0 / 6\.0\);", "double grad = (alpha1 * (2*v1 - 7*v2 + 11*v3) + alpha2 * (5*v3 - v2 + 2*v4) + alpha3 * (2*v3 + 5*v4 - v5)) / (6.0 * totalWeight);"))]
R["velocity-lambda"] = [(L, sub("velocity[node] += boundaryPoints[i].velocity / rSqd;\n                    weight[node] += 1.0 / rSqd;", "double wt = 1.0 / rSqd;\n                    velocity[node] += boundaryPoints[i].velocity * wt;\n                    weight[node] += wt;")),
                        (L, sub("velocity[neighbour] += boundaryPoints[i].velocity / rSqd;\n                            weight[neighbour] += 1.0 / rSqd;", "double wt = 1.0 / rSqd;\n                            velocity[neighbour] += boundaryPoints[i].velocity * wt;\n                            weight[neighbour] += wt;"))]
R["update-product"] = [(L, sub("signedDistance[node] -= timeStep * gradient[node] * velocity[node];", "const double change = velocity[node] * gradient[node] * timeStep;\n            signedDistance[node] = signedDistance[node] - change;"))]
R["update-flag"] = [(L, rsub(r"// Check mine nodes\.\s*for \(unsigned int i=0;i<nMines;i\+\+\)\s*\{.*?return true;\s*\}\s*\}\s*return false;", "bool hit = false;\n        for (unsigned int i=nMines;i>0 && !hit;i--) hit = std::abs(signedDistance[mines[i-1]]) < 1.0;\n        if (hit) reinitialise();\n        return hit;"))]
R["band-push"] = [(L, sub("                        // If needed, increase the size of the mines vector.\n                        if (nMines == mines.size())", "                        if (nMines == mines.size() && nMines < mesh.nNodes)"))]
R["mines-all"] = [(L, sub("mines.resize(size);", "mines.resize(mesh.nNodes);"))]
R["mask-squared"] = [(L, sub("// Point is inside the hole.\n                if (dist < holes[j].r)\n                {\n                    signedDistance[i] = -1e-6;", "// Point is inside the hole.\n                if (dx*dx + dy*dy < holes[j].r*holes[j].r && holes[j].r > 0)\n                {\n                    signedDistance[i] = -1e-6;"))]
R["line-vector"] = [(L, sub("double t = ((point.x - vertex1.x) * dx + (point.y - vertex1.y) * dy ) / rSqd;", "double len = sqrt(rSqd), ux = dx / len, uy = dy / len;\n            double t = ((point.x - vertex1.x) * ux + (point.y - vertex1.y) * uy) / len;"))]
R["closest-node-calls"] = [(M, rsub(r"(unsigned int Mesh::getClosestNode\(double x, double y\) const\s*\{).*?\n    \}\n\n    unsigned int Mesh::getElement\(const", r"\1 return getClosestNode(Coord(x, y)); }\n\n    unsigned int Mesh::getElement(const"))]
R["element-cast"] = [(M, sub("unsigned int elementX = std::floor(x);", "unsigned int elementX = static_cast<unsigned int>(x);")), (M, sub("unsigned int elementY = std::floor(y);", "unsigned int elementY = static_cast<unsigned int>(y);"))]
R["neighbours-direct"] = [(M, rsub(r"// First assume the mesh is periodic.*?// Node is on first or last row\..*?neighbours\[3\] = nNodes;\n", "nodes[node].neighbours[0] = x > 0 ? node - 1 : nNodes;\n        nodes[node].neighbours[1] = x < width ? node + 1 : nNodes;\n        nodes[node].neighbours[2] = y > 0 ? node - w : nNodes;\n        nodes[node].neighbours[3] = y < height ? node + w : nNodes;\n        (void)h;\n"))]
R["sens-reciprocal"] = [(S, sub("double sens = (f1 - f2) / (2.0 * delta);", "double sens = 0.5 * (f1 - f2) / delta;")), (S, sub("sens /= point.length;", "sens = sens / point.length;"))]
R["sens-copy"] = [(S, sub("// Displace the boundary point in the negative normal direction.\n        point.coord.x = coord.x - delta*point.normal.x;\n        point.coord.y = coord.y - delta*point.normal.y;", "const double sx = delta * point.normal.x, sy = delta * point.normal.y;\n        point.coord.x = coord.x - sx;\n        point.coord.y = coord.y - sy;"))]
R["sens-backward-first"] = [(S, rsub(r"// Displace the boundary point in the positive.*?double f2 = callback\(point\);", "point.coord.x = coord.x - delta*point.normal.x;\n        point.coord.y = coord.y - delta*point.normal.y;\n        double f2 = callback(point);\n        point.coord.x = coord.x + delta*point.normal.x;\n        point.coord.y = coord.y + delta*point.normal.y;\n        double f1 = callback(point);"))]


def work(name):
    d = "/tmp/rf/" + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "_build"))
    try:
        for f, fn in R[name]:
            p = os.path.join(d, "src", f)
            t = open(p).read()
            open(p, "w").write(fn(t))
    except AssertionError as e:
        return name + " EDIT FAILS: " + str(e)[:150]
    res = []
    only = os.environ.get("CHECKS", "").split() or sorted(CHECKS)
    for c in only:
        r = subprocess.run([sys.executable, os.path.join(VERIF, "bin/check.py"), c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
        if r.returncode:
            res.append((c, r.returncode))
            open("/tmp/rf/%s.%s.log" % (name, c), "w").write(r.stdout + r.stderr)
    shutil.rmtree(d, ignore_errors=True)
    return name + " " + (" ".join("%s:%d" % x for x in res) or "quiet")


if __name__ == "__main__":
    os.makedirs("/tmp/rf", exist_ok=True)
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for l in ex.map(work, sys.argv[1:] or sorted(R)):
            print(l, flush=True)
