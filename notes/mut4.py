U='python/maputils/maputils.py'; S='python/maputils/statistics.py'
M('u01-copy-flags','P32',[(U,"        newEdge.setFlag(edge.flags()) # retain Edge flags","        newEdge.setFlag(edge.flag(flag_constants.ALL_PROTECTION)) # retain Edge flags")])
M('u02-copy-nbr','P32',[(U,"            while neighbor.nextSigma().edgeLabel() > edge.label() \\\n                      or neighbor.label() == edge.label() \\\n","            while neighbor.nextSigma().edgeLabel() > edge.label() \\\n")])
M('u03-copy-faceflags','P32',[(U,"        newAnchor.leftFace().setFlag(face.flags() & 0x0fffffff)","        newAnchor.leftFace().setFlag(face.flags() & 0x00ffffff)")])
M('u04-copy-selfloop','P32',[(U,"                sigma[origin + first] = successor\n","                sigma[origin + first] = successor if successor != first else second\n")])
M('u05-hole','P32',[(U,"        for dart in face.contour().phiOrbit():\n            border[dart.rightFace()] = None","        for dart in contourDarts(face):\n            border[dart.rightFace()] = None")])
M('u06-nbr','P32',[(U,"    seen = {face.label(): True}\n    for dart in contourDarts(face):\n        fl = dart.rightFaceLabel()\n        if not fl in seen:\n            seen[fl] = True\n            yield dart","    seen = {face.label(): True}\n    for dart in contourDarts(face):\n        fl = dart.rightFaceLabel()\n        if fl and not fl in seen:\n            seen[fl] = True\n            yield dart")])
M('u07-pointin','P32',[(U,"                if face.contains((x, y)):\n                    return (x, y)","                if face.contour().leftFace().boundingBox().contains((x, y)):\n                    return (x, y)")])
M('u08-protect','P32',[(U,"            if flag and face.flag(flag) == flag:","            if flag and face.flag(flag):")])
M('u09-nodeatborder','P32',[(U,"    for dart in node.anchor().sigmaOrbit():\n        if edgeAtBorder(dart.edge()):\n            return True\n    return False","    for dart in node.anchor().sigmaOrbit():\n        return bool(edgeAtBorder(dart.edge()))\n    return False")])
M('u10-cruft','P21 P10',[(U,"            if node.hasDegree(2) and \\\n                   (node.anchor().endNode() != node):","            if node.hasDegree(2) and \\\n                   not node.anchor().edge().isBridge():")])
M('u11-small','P21',[(U,"        for dart in neighbors:\n            if mergeFacesCompletely(dart):\n                result += 1\n                break","        for dart in neighbors[:1]:\n            if mergeFacesCompletely(dart):\n                result += 1\n                break")])
M('u12-small-area','P21',[(U,"        if minPixelArea and face.pixelArea() >= minPixelArea:","        if minPixelArea and face.pixelArea() > minPixelArea:")])
M('u13-classif','P21',[(U,"        and (not ignoreNone or faceClasses[edge.leftFaceLabel()] is not None)])","        and (not ignoreNone or faceClasses[edge.leftFaceLabel()])])")])
M('u14-kernel','P21',[(U,"        for mergedLabel in labelLUT.merged(face.label()):\n            result[mergedLabel] = face.label()","        for mergedLabel in labelLUT.merged(face.label()):\n            if mergedLabel: result[mergedLabel] = face.label()")])
M('u15-common','P21',[(U,"    for contour in face1.contours():\n        for contourIt in contour.phiOrbit():\n            if contourIt.rightFaceLabel() == face2.label():","    for contour in [face1.contour()]:\n        for contourIt in contour.phiOrbit():\n            if contourIt.rightFaceLabel() == face2.label():")])
M('u16-live','P21',[(U,"    def confirm(self, *args):\n        self.append(self._op)","    def confirm(self, *args):\n        if not self or self[-1] != self._op: self.append(self._op)")])
M('u17-arm-cost','P22',[(U,"        while self._queue and self.nextCost() <= maxCost:","        while self._queue and self.nextCost() < maxCost:")])
M('u18-arm-upd','P22',[(U,"                for dart in contourDarts(survivor):\n                    if dart.edge().flag(flag_constants.ALL_PROTECTION):\n                        continue\n                    cost = mcm(dart)","                for dart in survivor.contour().phiOrbit():\n                    if dart.edge().flag(flag_constants.ALL_PROTECTION):\n                        continue\n                    cost = mcm(dart)")])
M('u19-srg','P22',[(U,"        if faceLabels[dart.rightFaceLabel()]:\n            continue # labeled in the meantime\n","")])
M('u20-mst','P22',[(U,"        if lfl != rfl:\n            faceLabels.relabel(lfl, rfl)","        if lfl != rfl and lfl and rfl:\n            faceLabels.relabel(lfl, rfl)")])
M('u21-minima','P22',[(U,"                if otherCost != None and otherCost < edgeCost:","                if otherCost and otherCost < edgeCost:")])
M('u22-SRG-best','P22',[(U,"                if not best or cost < best[0]:\n                    best = (cost, dart)","                if not best or cost <= best[0]:\n                    best = (cost, dart)")])
M('u23-SRG-update','P22',[(U,"            survivor.setFlag(flag_constants.SRG_BORDER, False)\n            survivor.setFlag(flag_constants.SRG_SEED)","            survivor.setFlag(flag_constants.SRG_SEED)")])
M('u24-best','P21',[(U,"        if best is None or cost < best[0]:\n            best = cost, dart","        if best is None or cost <= best[0]:\n            best = cost, dart")])
M('u25-protectface','P32',[(U,"def nonBackgroundFaces(map):","def nonBackgroundFaces(map, _skip = True):"),(U,"    for face in map.faceIter():\n        if not face.flag(flag_constants.BACKGROUND_FACE):","    for face in map.faceIter(_skip):\n        if not face.flag(flag_constants.BACKGROUND_FACE):")])
M('t01-dynidx','P36',[(S,"            self._mergedIndices.extend([\n                el1 + i for i in self.dartIndices(dart.clone().nextSigma())\n                if i])","            self._mergedIndices.extend([\n                el1 + i for i in self.dartIndices(dart.clone().nextSigma())])")])
M('t02-split','P36',[(S,"        self._newIndices1 = [i for i in oldIndices if i <= segmentIndex]","        self._newIndices1 = [i for i in oldIndices if i < segmentIndex]")])
M('t03-pv','P36',[(S,"            self._passValues[edge.label()] = min([\n                self._gmSiv[edge[i]] for i in ind])","            self._passValues[edge.label()] = self._gmSiv[edge[ind[0]]]")])
M('t04-basin','P36',[(S,"            if fDepth == None or fDepth > depth:","            if not fDepth or fDepth > depth:")])
M('t05-basinmerge','P36',[(S,"    def postMergeFaces(self, survivor):\n        self._basinDepth[survivor.label()] = self._mergedDepth","    def postMergeFaces(self, survivor):\n        self._basinDepth[survivor.label()] = self._mergedDepth or self._basinDepth[survivor.label()]")])
M('t06-pickle','P36',[(S,"        self._combiner = combiner # needed by _attachHooks()\n        DetachableStatistics.__setstate__(self, (map, ))","        self._combiner = None\n        DetachableStatistics.__setstate__(self, (map, ))\n        self._combiner = combiner")])
M('t07-ipq','P36',[(S,"    for d in dart.clone().nextAlpha().phiOrbit():\n        if d.rightFaceLabel() != ll:","    for d in dart.clone().nextAlpha().phiOrbit():\n        if d.rightFaceLabel() not in (ll, rl):")])
M('t08-border','P36',[(S,"        if edge1.flag(flag_constants.BORDER_PROTECTION):\n            return edge2.flag(flag_constants.BORDER_PROTECTION)\n        if edge2","        if edge1.flag(flag_constants.BORDER_PROTECTION):\n            return True\n        if edge2")])
M('t09-detach','P36',[(S,"        for cb in self._attachedHooks:\n            cb.disconnect()","        for cb in self._attachedHooks[:1]:\n            cb.disconnect()")])
M('t10-merged','P36',[(S,"        self._merged = dart.clone().nextSigma().edgeLabel()\n        return True","        self._merged = dart.clone().prevSigma().edgeLabel()\n        return True")])
M('t11-saddle','P36',[(S,"            if len(edge) != len(flowline[2]) and edge[1] == flowline[2][0]:\n                assert flowline[0] <= 0\n                saddleIndex += 1","            if len(edge) != len(flowline[2]):\n                saddleIndex += 1")])
M('t12-nonws','P36',[(S,"            self._indices.extend([[] for i in\n                                  range(mel - len(self._indices))])","            self._indices.extend([[]] *\n                                  (mel - len(self._indices)))")])
M('t13-dyn','P36',[(S,"        return self._passValues[edgeLabel] - min(","        return self._passValues[edgeLabel] - max(")])
BM='src/python_bindings/cppmapmodule.cxx'; PB='src/python_bindings/polygon.cxx'; SB='src/python_bindings/statistics.cxx'
M('b01-splitcb','P20',[(BM,"                       insertPoint ? bp::object(newPoint) : bp::object());","                       bp::object(newPoint));")])
M('b02-disc','P20',[(BM,"        for(unsigned int i = 0; i < connections_.size(); ++i)\n            if(connections_[i].connected())\n                connections_[i].disconnect();","        for(unsigned int i = 0; i < connections_.size(); ++i)\n            if(connections_[i].connected()) {\n                connections_[i].disconnect(); break; }")])
M('b03-holes','P20',[(BM,"    return ContourRangeIterator(face.holesBegin(), face.contoursEnd());","    return ContourRangeIterator(face.label() ? face.holesBegin() : face.contoursBegin() + (face.contoursBegin() != face.contoursEnd()), face.contoursEnd());")])
M('b04-pickleflags','P19',[(BM,"bp::extract<CellFlags>(faceFlags[i])() & ~(CellFlags)0xf0000000);","bp::extract<CellFlags>(faceFlags[i])() & 0xffffff);")])
M('b05-pickleedges','P19',[(BM,"            unsigned int missingNones = (*it)->label() - len(edgeTuples);\n            for(unsigned int i = 0; i < missingNones; ++i)","            unsigned int missingNones = (*it)->label() - len(edgeTuples);\n            for(unsigned int i = 0; i < std::min(missingNones, 2u); ++i)")])
M('b06-sigma','P19 P20',[(BM,"        if(map.edge(abs(*it)))\n            result.append(*it);","        if(*it && map.edge(abs(*it)) && !map.edge(abs(*it))->isLoop())\n            result.append(*it);\n        else if(map.edge(abs(*it)))\n            result.append(-*it);")])
M('b07-faceiter','P20',[(BM,"    if(skipInfinite)\n        ++result;\n    return result;","    if(skipInfinite && geomap.faceCount() > 1)\n        ++result;\n    return result;")])
M('b08-pickleempty','P19',[(BM,"        if(mapInitialized && hasLabels)\n            map.changeFaceLabels","        if(mapInitialized && hasLabels && map.faceCount() > 2)\n            map.changeFaceLabels")])
M('b09-seg','P20',[(BM,"    if(insertPoint.check())\n        return geomap.splitEdge(edge, segmentIndex, insertPoint());","    if(insertPoint.check() && insertPoint() != edge[segmentIndex])\n        return geomap.splitEdge(edge, segmentIndex, insertPoint());")])
M('q01-min','P28',[(SB,"        if(min_ > otherStats.min_)\n            min_ = otherStats.min_;","        if(otherStats.length_ && min_ > otherStats.min_)\n            min_ = otherStats.min_;")])
M('q02-sorted','P28',[(SB,"                  segments_.begin() + oldSize);\n        sorted_ = false;","                  segments_.begin() + oldSize);\n        sorted_ = sorted_ && otherStats.sorted_;")])
M('q03-quant','P28',[(SB,"            if(partialLength >= length_ * quantile)","            if(partialLength > length_ * quantile)")])
M('q04-pickle','P28',[(SB,"        w.max_ = extract<double>(state[3])();","        w.max_ = std::max(w.min_, extract<double>(state[3])());")])
M('q05-q1','P28',[(SB,"        if(quantile == 1.0) // numeric","        if(quantile > 1.0) // numeric")])
M('o01-curv','P33',[(PB,"            if((s1[0]*s3[1] - s3[0]*s1[1]) < 0)\n                result.append(make_tuple(pos, -2*delta / (a+b)));","            if((s1[0]*s3[1] - s3[0]*s1[1]) <= 0)\n                result.append(make_tuple(pos, -2*delta / (a+b)));")])
M('o02-cont','P33',[(PB,"            double delta = -floor((diff + M_PI)/(M_PI*2.0))*M_PI*2.0;","            double delta = diff > 0 ? -2*M_PI : 2*M_PI;")])
M('o03-intpos','P29',[(PB,"    return Point2D((int)floor(p[0]+0.5), (int)floor(p[1]+0.5));","    return Point2D((int)(p[0]+0.5), (int)floor(p[1]+0.5));")])
M('o04-insert','P29',[(PB,"    checkPythonIndex(pos, p.size() + 1);","    checkPythonIndex(pos, p.size());")])
M('o05-scan','P29',[(PB,"    if(i < s.startIndex() || i >= s.endIndex())","    if(i < s.startIndex() || i > s.endIndex())")])
