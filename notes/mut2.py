P='src/geomap/polygon.hxx'; L='src/geomap/labellut.hxx'; M2='src/geomap/vigra/map2d.hxx'; FI='src/geomap/filteriterator.hxx'; CE='src/geomap/crackedgemap.cxx'; CH='src/geomap/crackedgemap.hxx'; FS='src/geomap/facestatistics.hxx'; D='src/geomap/vigra/dsl.hxx'; C='src/geomap/cppmap.cxx'; H='src/geomap/cppmap.hxx'
M('c07b-split-anchor','P01 P08',[(C,"        if(changedNode.anchor_ == -(int)edge.label())\n            changedNode.anchor_ = -(int)result->label();","        if(changedNode.anchor_ == -(int)edge.label() && edge.startNodeLabel_ != changedNode.label_)\n            changedNode.anchor_ = -(int)result->label();\n        else if(changedNode.anchor_ == -(int)edge.label())\n            changedNode.anchor_ = successor;")])
M('c03-setpos-nodemap','P07',[(C,"    map_->nodeMap_.insert(PositionedNodeLabel(p, label_));","    if(!isIsolated())\n        map_->nodeMap_.insert(PositionedNodeLabel(p, label_));")])
M('c04-concat-scan','P02',[(C,"            otherScanLines.reverse();\n        (*scanLines_) += otherScanLines;","            ;\n        (*scanLines_) += otherScanLines;")])
M('p01-setpoint-bbox','P13 P29',[(P,"               ((x[1] > this->points_[pos][1]) &&\n                (this->points_[pos][1] == boundingBox_.begin()[1])))","               ((x[1] > this->points_[pos][1]) &&\n                (this->points_[pos][1] < boundingBox_.begin()[1])))")])
M('p02-erase-bbox','P13 P29',[(P,"               (*pos)[1] == boundingBox_.begin()[1] ||\n               (*pos)[1] == boundingBox_.end()[1]))","               (*pos)[1] == boundingBox_.begin()[1]))")])
M('p03-insert-len','P13',[(P,"                if(pos > this->begin())\n                    length_ -= (*pos - pos[-1]).magnitude();","                if(pos > this->begin() && *pos != x)\n                    length_ -= (*pos - pos[-1]).magnitude();")])
M('p04-extend','P13',[(P,"            if(*otherBegin == this->points_.back())\n            {","            if(*otherBegin == this->points_.back() && other.size() > 1)\n            {")])
M('p05-reverse','P13',[(P,"        Base::reverse();\n        if(partialAreaValid_)\n            partialArea_ = -partialArea_;","        Base::reverse();\n        if(partialAreaValid_ && !closed())\n            partialArea_ = -partialArea_;")])
M('p06-nearest','P13',[(P,"        if(t != 0.0)\n            t /= squaredNorm(dp);","        if(t > 0.0)\n            t /= norm(dp);")])
M('p07-swap','P13',[(P,"        std::swap(lengthValid_, rhs.lengthValid_);\n        std::swap(partialArea_","        std::swap(partialArea_")])
M('p08-contains','P13 P07',[(P,"bool now = this->points_[i][1] < point[1];","bool now = this->points_[i][1] <= point[1];")])
M('p09-simplify','P15',[(P,"    if(straightLength2 > 1e-16)","    if(straightLength2 > 1e-1)")])
M('p10-simplify-max','P15',[(P,"    if(useMaxStep && (straightLength2 > maxStep2) && (splitPos == polyEnd))","    if(useMaxStep && (straightLength2 > 2*maxStep2) && (splitPos == polyEnd))")])
M('p11-hull','P15',[(P,"        if(cross == 0) // same direction (or p0 itself): closest point first\n            return (a-p0_).squaredMagnitude() < (b-p0_).squaredMagnitude();","        if(cross == 0) // same direction (or p0 itself): closest point first\n            return false;")])
M('p12-scan-merge','P14',[(P,"    void joinSuccessor(const ScanlineSegment &other)\n    {\n        if(other.end > end)\n            end = other.end;","    void joinSuccessor(const ScanlineSegment &other)\n    {\n        end = other.end;")])
M('p13-scan-kline','P14',[(P,"                prevLine = (prevKLine-step) / 2;","                prevLine = (prevKLine-1) / 2;")])
M('p14-gauss-cyc','P30',[(P,"        double pos = arcLengthList[k] + (j / size) * totalLength;","        double pos = arcLengthList[k] + (j >= size ? totalLength : 0.0);")])
M('p15-gauss-steps','P30',[(P,"    int steps = int(std::ceil(arcLengths[size-1] / desiredPointDistance));\n    double newStep = arcLengths[size-1] / steps;\n\n    int l = 0;\n    for(int k=0; k<steps; ++k)","    int steps = int(std::floor(arcLengths[size-1] / desiredPointDistance)) + 1;\n    double newStep = arcLengths[size-1] / steps;\n\n    int l = 0;\n    for(int k=0; k<steps; ++k)")])
M('l01-relabel','P16 P06',[(L,"        if(prevMerged_[to] != to)\n            prevMerged_[prev] = prevMerged_[to];","        if(prevMerged_[to] != to && prev != from)\n            prevMerged_[prev] = prevMerged_[to];")])
M('l02-append','P16',[(L,"        labelLUT_.push_back(labelLUT_.size());","        labelLUT_.push_back(labelLUT_.size() ? labelLUT_.back() + 1 : 0);")])
M('m01-nearest','P16 P07',[(M2,"            if(squaredNorm(v[0] - it->first) > maxSquaredDist)\n                break;","            if(squaredNorm(v[0] - it->first) >= maxSquaredDist || v[0] - it->first > 4)\n                break;")])
M('f01-safe','P16',[(FI,"        this->checkPredicate();\n        return Base::inRange();","        return Base::inRange();")])
M('f02-image','P16',[(FI,"            if(iter_.y != lowerRight_.y)\n                operator++();","            if(iter_.y + 1 < lowerRight_.y || width_ > 1)\n                operator++();")])
M('e01-diag','P09',[(CH,"                if(sa(sul, it - cul - vigra::Diff2D(0, 1)) >\n                   sa(sul, it - cul - vigra::Diff2D(1, 1)))","                if(sa(sul, it - cul - vigra::Diff2D(0, 1)) >\n                   sa(sul, it - cul - vigra::Diff2D(1, 0)))")])
M('e02-border','P09',[(CE,"        dart.edge()->setFlag(GeoMap::Edge::BORDER_PROTECTION);","        if(!dart.edge()->isLoop() || dart.rightFaceLabel() == 1)\n            dart.edge()->setFlag(GeoMap::Edge::BORDER_PROTECTION);")])
M('e03-midcrack','P09',[(CE,"        bool moveNode = (edge.isLoop() && edge.startNode()->hasDegree(2));","        bool moveNode = (edge.isLoop() && edge.startNode()->degree() <= 3);")])
M('e04-srclabel','P09',[(CH,"            if(p1[0] < p2[0]) // eastward crack, adjust offset\n            {\n                --leftPos.y;","            if(p1[0] < p2[0]) // eastward crack, adjust offset\n            {\n                if(leftPos.y > 1) --leftPos.y;")])
M('e05-maybe','P09',[(CE,"            if((connection & CONN_ALL4) == 0)\n                connection &= ~CONN_MAYBE_NODE;","            connection &= ~CONN_MAYBE_NODE;")])
M('s01-ss','P12',[(FS,"                if(ssLeft < ssRight)","                if(ssLeft > ssRight)")])
M('s02-assoc','P12',[(FS,"            if(face.pixelArea() != pixels.size())\n            {","            if(face.pixelArea() > pixels.size() + 1)\n            {")])
M('s03-nan','P12',[(FS,"        if(functors_[dart.rightFaceLabel()]->count())\n            merged_","        if(functors_[dart.rightFaceLabel()]->count() > 1)\n            merged_")])
M('s04-veto','P12',[(FS,"        label1_ = dart.leftFaceLabel();\n        label2_ = dart.rightFaceLabel();\n","        label1_ = dart.leftFaceLabel();\n        label2_ = dart.rightFaceLabel();\n        if(functors_[label1_]->count() == 0) std::swap(functors_[label1_], functors_[label2_]);\n")])
M('s05-homog','P12',[(FS,"        double a1 = dart.leftFace()->area();\n        double a2 = dart.rightFace()->area();","        double a1 = dart.leftFace()->pixelArea();\n        double a2 = dart.rightFace()->pixelArea();")])
M('d01-mirror','P26',[(D,"        pos_ = 1-width()-pos_;","        pos_ = 1-abs(b_)-pos_;")])
M('d02-inter','P26',[(D,"            result += RationalType(width()-1, 2);","            result += RationalType(width()/2);")])
M('d03-tangent','P26',[(D,"            if((*backwardIter != fc1) && (*backwardIter != fc2))\n                return 0;","            ;")])
M('d04-add','P26',[(D,"        if((0 <= v) && (v < b_))\n            return true; // point is already within DSL","        if((0 <= v) && (v < width()))\n            return true; // point is already within DSL\n        if(x < -20) return false;")])
M('c20-addedge-loop','P08',[(C,"    if((endNeighbor == startNeighbor) && result->partialArea() < 0)","    if((endNeighbor == startNeighbor) && result->partialArea() < -1)")])
M('c21-setsigma','P08 P20',[(C,"    std::copy(sigma - (edges_.size() - 1), sigma + edges_.size(),","    std::copy(sigma - (edges_.size() - 1), sigma + edges_.size() - 1,")])
M('c22-setsigma-resize','P08',[(C,"    if(sigmaMappingArray_.size() < 2*edges_.size() - 1)\n        resizeSigmaMapping(2*edges_.size() - 1);","")])
M('c27-face-copyflags','P06',[(H,"      label_(other.label_),\n      flags_(other.flags_),\n      boundingBox_(other.boundingBox_),\n      area_(other.area_),","      label_(other.label_),\n      flags_(other.flags_ & INTERNAL_FLAGS),\n      boundingBox_(other.boundingBox_),\n      area_(other.area_),")])
M('c34-merge-area','P02',[(C,"    if(survivor.flag(GeoMap::Face::AREA_VALID))\n        survivor.area_ += mergedFace.area();","    if(survivor.flag(GeoMap::Face::AREA_VALID) && survivor.label())\n        survivor.area_ += mergedFace.area();")])
M('c39-unsort','P18',[(C,"    if(unsortableState)\n    {","    if(unsortableState && dpEnd - dpBegin == 2)\n    {")])
M('p09b-simplify','P15',[(P,"    if(straightLength2 > 1e-16)","    if(straightLength2 > 1e-1)")])
M('c29b-changelabels','P04',[(C,"        transformMultiArray(srcMultiArrayRange(*labelImage_, labelAccessor()),","        transformMultiArray(srcMultiArrayRange(*labelImage_),")])
M('f01b-safe','P16',[(FI,"        this->checkPredicate();\n        return Base::inRange();","        return Base::inRange();")])
