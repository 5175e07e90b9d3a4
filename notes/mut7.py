C='src/geomap/cppmap.cxx'
M('v01-prev','P03 P01 P08 P07',[(C,"""                    Vector2 center((prev + *cpi) / 2.0);
                    prev = *cpi;
""","""                    Vector2 center((prev + *cpi) / 2.0);
""")])
M('v02-prev-li','P03 P01 P08 P07',[(C,"""                        detail::intVPos((prev + *cpi) / 2.0));
                    prev = *cpi;
""","""                        detail::intVPos((prev + *cpi) / 2.0));
""")])
