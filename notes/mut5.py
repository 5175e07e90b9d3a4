W='src/geomap/vigra/subpixel_watershed.hxx'; WB='src/python_bindings/subpixel_watersheds.cxx'; OV='src/geomap/vigra/oversampling.hxx'
D2='src/python_bindings/pythondiff2d.cxx'; LL='src/geomap/labellut.hxx'; DS='src/geomap/vigra/dsl.hxx'; DB='src/python_bindings/dsl.cxx'; UB='src/python_bindings/cppmapmodule_utils.cxx'; H='src/geomap/cppmap.hxx'; C='src/geomap/cppmap.cxx'; U='python/maputils/maputils.py'; DPP='python/maputils/dartpath.py'
M('k04-saddletwice','P27',[(W,"    for(int i = 1; i < (int)backwardCurve.size(); ++i)\n        edge.push_back","    for(int i = 0; i < (int)backwardCurve.size(); ++i)\n        edge.push_back")])
M('k05-mask-x','P27 P41',[(W,"        for(int x=0; x <= w-1; ++x, ++mit.x)","        for(int x=0; x < w-1; ++x, ++mit.x)")])
M('k06-clear','P27 P41',[(W,"findCriticalPoints()\n{\n    minima_.clear();\n    saddles_.clear();","findCriticalPoints()\n{\n    minima_.clear();\n    if(saddles_.size() < 2) saddles_.clear();")])
M('k09-dist','P27',[(W,"SubPixelWatersheds<SplineImageView>::findCriticalPoints()\n{","SubPixelWatersheds<SplineImageView>::findCriticalPoints()\n{\n    minCPDist_ *= 0.99;")])
M('k10-saddle8','P34',[(W,"            if(countSignChanges >= 4)","            if(countSignChanges == 4)")])
M('k11-linpos','P34',[(W,"Coordinate(x + (v - v1) / sv, y + (v - v3) / sv)","Coordinate(x + (v - v3) / sv, y + (v - v1) / sv)")])
M('k12-linborder','P34',[(W,"            if(x == w - 2 || y == h - 2)","            if(x == w - 2 && y == h - 2)")])
M('k14-dirmax','P34',[(W,"            return (d2 < zero) && (dxx + dyy < zero); // maximum?","            return (d2 < zero); // maximum?")])
M('k15-dirborder','P34',[(W,"        if(*xx < 1 || *xx > (double)(image.width()-2) ||","        if(*xx < 1 || *xx > (double)(image.width()-1) ||")])
M('k16-maximg','P27',[(W,"            maxImage_(x,y) = -std::abs(maxImage_(x,y));","            maxImage_(x,y) = -(int)i;")])
M('k17-second','P27',[(W,"                    resindex = -index+1;","                    resindex = -index;")])
M('k17b-second','P27',[(W,"                sd = diff.magnitude();\n                if(sd < dist && diff[0]*dx + diff[1]*dy >= 0)","                sd = diff.magnitude();\n                if(sd < dist && diff[0]*dx + diff[1]*dy > 0)")])
M('k18-back','P27 P41',[(W,"    if((x2-x0)*image_.dx(x2, y2) + (y2-y0)*image_.dy(x2, y2) <= 0.0)","    if(false)")])
M('k19-hack','P27 P41',[(W,"    if(dx * dx2 + dy * dy2 < 0)\n","    if(false)\n")])
M('k20-edges','P41',[(WB,"            if(this->image_(this->saddles_[i][0], this->saddles_[i][1]) >= threshold)","            if(this->image_((int)this->saddles_[i][0], (int)this->saddles_[i][1]) >= threshold)")])
M('k21-mask','P41',[(WB,"    maxima()\n    {\n        if(this->maxima_.size() == 0)","    maxima()\n    {\n        if(this->maxima_.size() <= 1)")])
M('k22-idx','P41',[(WB,"ppoints, forwardCurve.size() - 1);","ppoints, backwardCurve.size() - 1);")])
M('k23-type','P27',[(W,"            else if(dxx + dyy > zero)\n            {\n                return Minimum;\n            }\n            else\n            {\n                return Maximum;\n            }\n        }\n    }\n    return Failed;\n}\n\ntemplate <class IMAGEVIEW>\nbool","            else if(dxx + dyy > zero || dxx > zero)\n            {\n                return Minimum;\n            }\n            else\n            {\n                return Maximum;\n            }\n        }\n    }\n    return Failed;\n}\n\ntemplate <class IMAGEVIEW>\nbool")])
M('k24-nearx','P27',[(W,"    int dyi = (y - yi >= 0.0)\n                 ?  1","    int dyi = (x - xi >= 0.0)\n                 ?  1")])
M('k25-eigen','P27',[(W,"                 ? -h*VIGRA_CSTD::sin(a)\n                 :  h*VIGRA_CSTD::sin(a);","                 ? -h*VIGRA_CSTD::sin(a)\n                 : -h*VIGRA_CSTD::sin(a);")])
M('k26-four','P34',[(W,"            else if(countSignChanges == 0 && countZeros == 0 && s < z)\n            {\n                minima->push_back(Coordinate(x, y));\n            }\n            else if(countSignChanges == 0 && countZeros == 0 && s > z)","            else if(countSignChanges == 0 && countZeros == 0 && s < z)\n            {\n                minima->push_back(Coordinate(x, y));\n            }\n            else if(countSignChanges == 0 && countZeros <= 1 && s > z)")])
M('o01-reflect','P34',[(OV,"    int wo2 = 2*wo - 2;","    int wo2 = 2*wo - 1;")])
M('o02-half','P34',[(OV,"            lbound = i/2 - halfintRadius + 1;\n","            lbound = i/2 - halfintRadius + (halfintRadius > 1 ? 1 : 0);\n")])
M('o03-hsum','P34',[(OV,"    for(int i = 0; i < halfintRadius; ++i)\n    {\n        sum += 2.0","    for(int i = 0; i < intRadius; ++i)\n    {\n        sum += 2.0")])
M('r01-mesh','P37',[(D2,"         if(point_.x >= rect_.right())\n         {\n            point_.x = rect_.left();","         if(point_.x >= rect_.right())\n         {\n            point_.x = rect_.left() > 0 ? rect_.left() : 0;")])
M('r02-round','P37 P29',[(D2,"(int)(y < 0\n                                   ? y - 0.5","(int)(x < 0\n                                   ? y - 0.5")])
M('r03-pickle','P37',[(D2,"        return python::make_tuple(v.x, v.y);","        return python::make_tuple(v.x, v.y < 0 ? -v.y : v.y);")])
M('l01-relabel','P37 P03 P04',[(LL,"        if(prevMerged_[to] != to)\n            prevMerged_[prev] = prevMerged_[to];","        if(prevMerged_[to] != to && prev != from)\n            prevMerged_[prev] = prevMerged_[to];")])
M('l02-init','P37',[(LL,"        prevMerged_.resize(size);\n        for(unsigned int i = 0; i < size; ++i)\n        {\n            labelLUT_[i] = i;","        prevMerged_.resize(size);\n        for(unsigned int i = 0; i < size; ++i)\n        {\n            if(labelLUT_[i] < size && labelLUT_[i]) continue;\n            labelLUT_[i] = i;")])
M('d01-contains','P26 P37',[(DS,"        return (0 <= v) && (v < width());","        return (0 <= v) && (v < std::max(width(), 1));")])
M('d02-addpos','P26 P37',[(DS,"            pos = 1-b_-pos_; // temporarily mirror","            pos = 1-b_+pos_; // temporarily mirror")])
M('d03-loop','P26 P37',[(DS,"        for(; k < b_; ++k)","        for(; k < b_-1; ++k)")])
M('d04-conv','P26 P37',[(DS,"                a_, b_ - a_, pos_);","                a_, b_ - abs(a_), pos_);")])
M('d05-mirY','P26 P37',[(DS,"        mirrorX();\n        mirrorXY();","        mirrorXY();\n        a_ = -a_; b_ = abs(b_);")])
M('d06-closed','P26 P37',[(DS,"            if(closed)\n                forwardIter = freemanCodesBegin;\n            else\n                break;","            if(closed && pointIndex)\n                forwardIter = freemanCodesBegin;\n            else\n                break;")])
M('d07-fc','P26 P37',[(DS,"            if((*backwardIter != fc1) && (*backwardIter != fc2))\n                return 0;","            if((*backwardIter != fc1) || (*backwardIter != fc2))\n                return 0;")])
M('d08-int','P26',[(DS,"            result += RationalType(width()-1, 2);","            result += RationalType((width()-1)/2);")])
M('d09-none','P37',[(DB,"offset ? object(offset) : object()","offset > 1 ? object(offset) : object()")])
M('x01-conn','P38',[(UB,"                result(x+1, y) = (int)result(x+1, y) | 4;","                result(x+1, y) = 4 + (connections & 4 ? 1 : (int)result(x+1, y));")])
M('x02-conn2','P38',[(UB,"            if(connections & 2)\n","            if((connections & 3) == 2)\n")])
M('x03-draw','P38',[(UB,"destMultiArrayRange(temp), negativeEdgeLabels);","destMultiArrayRange(temp), negativeEdgeLabels || map.edgeCount() > 12);")])
M('x04-8conn','P38',[(UB,"    CrackEdgeMapGenerator cemg(srcImageRange(labels), eightConnectedRegions);","    CrackEdgeMapGenerator cemg(srcImageRange(labels), eightConnectedRegions || labels.shape(0) > labels.shape(1) + 3);")])
M('a01-arcgoto','P39',[(H,"            if(diff.squaredMagnitude() > rest*rest)","            if(diff.squaredMagnitude() >= rest*rest && rest >= 0)")])
M('a02-prev','P39',[(H,"    bool gotoPrevSegment()\n    {\n        bool result = prevSegmentInternal();\n        position_ = p1_;\n        partialArcLength_ = 0.0;","    bool gotoPrevSegment()\n    {\n        bool result = prevSegmentInternal();\n        position_ = p1_;\n        if(result) partialArcLength_ = 0.0;")])
M('a03-circ','P39',[(H,"                position_ = p2_;\n                partialArcLength_ = 0.0;\n                return false;","                position_ = p2_;\n                return false;")])
M('a04-leave','P39',[(H,"        while((p2_ - center).squaredMagnitude() < radius2)\n            if(!nextSegmentInternal())\n                break;","        while((p1_ - center).squaredMagnitude() < radius2 && (p2_ - center).squaredMagnitude() < radius2)\n            if(!nextSegmentInternal())\n                break;")])
M('b01-pref','P18 P40',[(C,"        while(firstGroupStart != dpBegin)\n        {\n            --firstGroupStart;","        while(--firstGroupStart > dpBegin)\n        {")])
M('f01-flowback','P41',[(U,"                if numpy.dot(diff, numpy.subtract(pos, points[1])) >= 0: # don't jump back","                if numpy.dot(diff, numpy.subtract(pos, points[1])) > 0: # don't jump back")])
M('f02-flowend','P41',[(U,"            pos = points[-1]\n            nearestNode = map.nearestNode(pos, 0.25)","            pos = points[-1]\n            nearestNode = map.nearestNode(pos, 0.0625)")])

M('p01-points','P40',[(DPP,"        yield self[0][0]\n","        yield self[0].startNode().position()\n")])
M('p02-add','P40',[(DPP,"        result = self.__class__(self)\n        if isinstance(dart_s, list):\n            result.extend","        result = self.__class__(self)\n        if isinstance(dart_s, list) and dart_s:\n            result = self; result.extend")])
