// generated once by tools/mkkeys.py from the original tree; this is the oracle, not derived at run time
fn t0(r: &mut Rng) -> Res { one!(r, GraphAttributes, _background, String, "GraphAttributes::_background", "_background") }
fn t1(_r: &mut Rng) -> Res { dflt!(_background, String, "_background") }
fn t2(r: &mut Rng) -> Res { one!(r, NodeAttributes, area, f32, "NodeAttributes::area", "area") }
fn t3(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, area, f32, "SubgraphAttributes::area", "area") }
fn t4(_r: &mut Rng) -> Res { dflt!(area, f32, "area") }
fn v5() -> Vec<(arrowhead, &'static str)> { vec![(arrowhead::normal, "normal"), (arrowhead::dot, "dot"), (arrowhead::odot, "odot"), (arrowhead::none, "none"), (arrowhead::empty, "empty"), (arrowhead::diamond, "diamond"), (arrowhead::ediamond, "ediamond"), (arrowhead::odiamond, "odiamond"), (arrowhead::box_, "box"), (arrowhead::open, "open"), (arrowhead::vee, "vee"), (arrowhead::halfopen, "halfopen"), (arrowhead::obox, "obox"), (arrowhead::crow, "crow"), (arrowhead::invempty, "invempty"), (arrowhead::tee, "tee"), (arrowhead::invodot, "invodot"), (arrowhead::invdot, "invdot"), (arrowhead::inv, "inv")] }
fn t5(_r: &mut Rng) -> Res { all!(EdgeAttributes, arrowhead, v5(), "EdgeAttributes::arrowhead", "arrowhead") }
fn t6(_r: &mut Rng) -> Res { edflt!(arrowhead, v5(), "arrowhead") }
fn v7() -> Vec<(arrowtail, &'static str)> { vec![(arrowtail::normal, "normal"), (arrowtail::dot, "dot"), (arrowtail::odot, "odot"), (arrowtail::none, "none"), (arrowtail::empty, "empty"), (arrowtail::diamond, "diamond"), (arrowtail::ediamond, "ediamond"), (arrowtail::odiamond, "odiamond"), (arrowtail::box_, "box"), (arrowtail::open, "open"), (arrowtail::vee, "vee"), (arrowtail::halfopen, "halfopen"), (arrowtail::obox, "obox"), (arrowtail::crow, "crow"), (arrowtail::invempty, "invempty"), (arrowtail::tee, "tee"), (arrowtail::invodot, "invodot"), (arrowtail::invdot, "invdot"), (arrowtail::inv, "inv")] }
fn t7(_r: &mut Rng) -> Res { all!(EdgeAttributes, arrowtail, v7(), "EdgeAttributes::arrowtail", "arrowtail") }
fn t8(_r: &mut Rng) -> Res { edflt!(arrowtail, v7(), "arrowtail") }
fn t9(r: &mut Rng) -> Res { one!(r, EdgeAttributes, arrowsize, f32, "EdgeAttributes::arrowsize", "arrowsize") }
fn t10(_r: &mut Rng) -> Res { dflt!(arrowsize, f32, "arrowsize") }
fn t11(r: &mut Rng) -> Res { one!(r, GraphAttributes, bb, String, "GraphAttributes::bb", "bb") }
fn t12(r: &mut Rng) -> Res { one!(r, GraphAttributes, center, bool, "GraphAttributes::center", "center") }
fn t13(_r: &mut Rng) -> Res { dflt!(center, bool, "center") }
fn t14(r: &mut Rng) -> Res { one!(r, GraphAttributes, charset, String, "GraphAttributes::charset", "charset") }
fn t15(_r: &mut Rng) -> Res { dflt!(charset, String, "charset") }
fn t16(r: &mut Rng) -> Res { one!(r, GraphAttributes, class, String, "GraphAttributes::class", "class") }
fn t17(r: &mut Rng) -> Res { one!(r, NodeAttributes, class, String, "NodeAttributes::class", "class") }
fn t18(r: &mut Rng) -> Res { one!(r, EdgeAttributes, class, String, "EdgeAttributes::class", "class") }
fn t19(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, class, String, "SubgraphAttributes::class", "class") }
fn t20(_r: &mut Rng) -> Res { dflt!(class, String, "class") }
fn t21(r: &mut Rng) -> Res { one!(r, GraphAttributes, colorscheme, String, "GraphAttributes::colorscheme", "colorscheme") }
fn t22(r: &mut Rng) -> Res { one!(r, NodeAttributes, colorscheme, String, "NodeAttributes::colorscheme", "colorscheme") }
fn t23(r: &mut Rng) -> Res { one!(r, EdgeAttributes, colorscheme, String, "EdgeAttributes::colorscheme", "colorscheme") }
fn t24(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, colorscheme, String, "SubgraphAttributes::colorscheme", "colorscheme") }
fn t25(_r: &mut Rng) -> Res { dflt!(colorscheme, String, "colorscheme") }
fn t26(r: &mut Rng) -> Res { one!(r, GraphAttributes, comment, String, "GraphAttributes::comment", "comment") }
fn t27(r: &mut Rng) -> Res { one!(r, NodeAttributes, comment, String, "NodeAttributes::comment", "comment") }
fn t28(r: &mut Rng) -> Res { one!(r, EdgeAttributes, comment, String, "EdgeAttributes::comment", "comment") }
fn t29(_r: &mut Rng) -> Res { dflt!(comment, String, "comment") }
fn t30(r: &mut Rng) -> Res { one!(r, GraphAttributes, compound, bool, "GraphAttributes::compound", "compound") }
fn t31(_r: &mut Rng) -> Res { dflt!(compound, bool, "compound") }
fn t32(r: &mut Rng) -> Res { one!(r, GraphAttributes, concentrate, bool, "GraphAttributes::concentrate", "concentrate") }
fn t33(_r: &mut Rng) -> Res { dflt!(concentrate, bool, "concentrate") }
fn t34(r: &mut Rng) -> Res { one!(r, GraphAttributes, Damping, f32, "GraphAttributes::Damping", "Damping") }
fn t35(_r: &mut Rng) -> Res { dflt!(Damping, f32, "Damping") }
fn t36(r: &mut Rng) -> Res { one!(r, EdgeAttributes, decorate, bool, "EdgeAttributes::decorate", "decorate") }
fn t37(_r: &mut Rng) -> Res { dflt!(decorate, bool, "decorate") }
fn t38(r: &mut Rng) -> Res { one!(r, GraphAttributes, defaultdist, f32, "GraphAttributes::defaultdist", "defaultdist") }
fn t39(r: &mut Rng) -> Res { one!(r, EdgeAttributes, constraint, bool, "EdgeAttributes::constraint", "constraint") }
fn t40(_r: &mut Rng) -> Res { dflt!(constraint, bool, "constraint") }
fn t41(r: &mut Rng) -> Res { one!(r, GraphAttributes, dim, i32, "GraphAttributes::dim", "dim") }
fn t42(_r: &mut Rng) -> Res { dflt!(dim, i32, "dim") }
fn t43(r: &mut Rng) -> Res { one!(r, GraphAttributes, dimen, i32, "GraphAttributes::dimen", "dimen") }
fn t44(_r: &mut Rng) -> Res { dflt!(dimen, i32, "dimen") }
fn v45() -> Vec<(clusterrank, &'static str)> { vec![(clusterrank::local, "local"), (clusterrank::global, "global"), (clusterrank::none, "none")] }
fn t45(_r: &mut Rng) -> Res { all!(GraphAttributes, clusterrank, v45(), "GraphAttributes::clusterrank", "clusterrank") }
fn t46(_r: &mut Rng) -> Res { edflt!(clusterrank, v45(), "clusterrank") }
fn v47() -> Vec<(dir, &'static str)> { vec![(dir::forward, "forward"), (dir::back, "back"), (dir::both, "both"), (dir::none, "none")] }
fn t47(_r: &mut Rng) -> Res { all!(EdgeAttributes, dir, v47(), "EdgeAttributes::dir", "dir") }
fn t48(_r: &mut Rng) -> Res { edflt!(dir, v47(), "dir") }
fn t49(r: &mut Rng) -> Res { one!(r, GraphAttributes, diredgeconstraints, bool, "GraphAttributes::diredgeconstraints", "diredgeconstraints") }
fn t50(_r: &mut Rng) -> Res { dflt!(diredgeconstraints, bool, "diredgeconstraints") }
fn t51(r: &mut Rng) -> Res { one!(r, NodeAttributes, distortion, f32, "NodeAttributes::distortion", "distortion") }
fn t52(_r: &mut Rng) -> Res { dflt!(distortion, f32, "distortion") }
fn t53(r: &mut Rng) -> Res { one!(r, GraphAttributes, dpi, f32, "GraphAttributes::dpi", "dpi") }
fn t54(_r: &mut Rng) -> Res { dflt!(dpi, f32, "dpi") }
fn t55(r: &mut Rng) -> Res { one!(r, EdgeAttributes, dedgehrefpi, String, "EdgeAttributes::dedgehrefpi", "dedgehrefpi") }
fn t56(r: &mut Rng) -> Res { one!(r, EdgeAttributes, edgetarget, String, "EdgeAttributes::edgetarget", "edgetarget") }
fn t57(r: &mut Rng) -> Res { one!(r, EdgeAttributes, edgetooltip, String, "EdgeAttributes::edgetooltip", "edgetooltip") }
fn t58(r: &mut Rng) -> Res { one!(r, EdgeAttributes, edgeURL, String, "EdgeAttributes::edgeURL", "edgeURL") }
fn t59(r: &mut Rng) -> Res { one!(r, GraphAttributes, epsilon, f32, "GraphAttributes::epsilon", "epsilon") }
fn t60(r: &mut Rng) -> Res { one!(r, GraphAttributes, esep, f32, "GraphAttributes::esep", "esep") }
fn t61(_r: &mut Rng) -> Res { dflt!(esep, f32, "esep") }
fn t62(r: &mut Rng) -> Res { one!(r, NodeAttributes, fixedsize, bool, "NodeAttributes::fixedsize", "fixedsize") }
fn t63(_r: &mut Rng) -> Res { dflt!(fixedsize, bool, "fixedsize") }
fn t64(r: &mut Rng) -> Res { one!(r, NodeAttributes, fontname, String, "NodeAttributes::fontname", "fontname") }
fn t65(r: &mut Rng) -> Res { one!(r, GraphAttributes, fontname, String, "GraphAttributes::fontname", "fontname") }
fn t66(r: &mut Rng) -> Res { one!(r, EdgeAttributes, fontname, String, "EdgeAttributes::fontname", "fontname") }
fn t67(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, fontname, String, "SubgraphAttributes::fontname", "fontname") }
fn t68(_r: &mut Rng) -> Res { dflt!(fontname, String, "fontname") }
fn t69(r: &mut Rng) -> Res { one!(r, NodeAttributes, href, String, "NodeAttributes::href", "href") }
fn t70(r: &mut Rng) -> Res { one!(r, GraphAttributes, href, String, "GraphAttributes::href", "href") }
fn t71(r: &mut Rng) -> Res { one!(r, EdgeAttributes, href, String, "EdgeAttributes::href", "href") }
fn t72(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, href, String, "SubgraphAttributes::href", "href") }
fn t73(_r: &mut Rng) -> Res { dflt!(href, String, "href") }
fn t74(r: &mut Rng) -> Res { one!(r, NodeAttributes, id, String, "NodeAttributes::id", "id") }
fn t75(r: &mut Rng) -> Res { one!(r, GraphAttributes, id, String, "GraphAttributes::id", "id") }
fn t76(r: &mut Rng) -> Res { one!(r, EdgeAttributes, id, String, "EdgeAttributes::id", "id") }
fn t77(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, id, String, "SubgraphAttributes::id", "id") }
fn t78(_r: &mut Rng) -> Res { dflt!(id, String, "id") }
fn t79(r: &mut Rng) -> Res { one!(r, NodeAttributes, fontsize, f32, "NodeAttributes::fontsize", "fontsize") }
fn t80(r: &mut Rng) -> Res { one!(r, GraphAttributes, fontsize, f32, "GraphAttributes::fontsize", "fontsize") }
fn t81(r: &mut Rng) -> Res { one!(r, EdgeAttributes, fontsize, f32, "EdgeAttributes::fontsize", "fontsize") }
fn t82(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, fontsize, f32, "SubgraphAttributes::fontsize", "fontsize") }
fn t83(_r: &mut Rng) -> Res { dflt!(fontsize, f32, "fontsize") }
fn t84(r: &mut Rng) -> Res { one!(r, GraphAttributes, fontnames, String, "GraphAttributes::fontnames", "fontnames") }
fn t85(_r: &mut Rng) -> Res { dflt!(fontnames, String, "fontnames") }
fn t86(r: &mut Rng) -> Res { one!(r, GraphAttributes, fontpath, String, "GraphAttributes::fontpath", "fontpath") }
fn t87(_r: &mut Rng) -> Res { dflt!(fontpath, String, "fontpath") }
fn t88(r: &mut Rng) -> Res { one!(r, GraphAttributes, forcelabels, bool, "GraphAttributes::forcelabels", "forcelabels") }
fn t89(_r: &mut Rng) -> Res { dflt!(forcelabels, bool, "forcelabels") }
fn t90(r: &mut Rng) -> Res { one!(r, NodeAttributes, gradientangle, i32, "NodeAttributes::gradientangle", "gradientangle") }
fn t91(r: &mut Rng) -> Res { one!(r, GraphAttributes, gradientangle, i32, "GraphAttributes::gradientangle", "gradientangle") }
fn t92(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, gradientangle, i32, "SubgraphAttributes::gradientangle", "gradientangle") }
fn t93(r: &mut Rng) -> Res { one!(r, NodeAttributes, group, String, "NodeAttributes::group", "group") }
fn t94(r: &mut Rng) -> Res { one!(r, EdgeAttributes, head_lp, String, "EdgeAttributes::head_lp", "head_lp") }
fn t95(r: &mut Rng) -> Res { one!(r, EdgeAttributes, headclip, bool, "EdgeAttributes::headclip", "headclip") }
fn t96(_r: &mut Rng) -> Res { dflt!(headclip, bool, "headclip") }
fn t97(r: &mut Rng) -> Res { one!(r, EdgeAttributes, headhref, String, "EdgeAttributes::headhref", "headhref") }
fn t98(_r: &mut Rng) -> Res { dflt!(headhref, String, "headhref") }
fn t99(r: &mut Rng) -> Res { one!(r, EdgeAttributes, headlabel, String, "EdgeAttributes::headlabel", "headlabel") }
fn t100(_r: &mut Rng) -> Res { dflt!(headlabel, String, "headlabel") }
fn t101(r: &mut Rng) -> Res { one!(r, EdgeAttributes, headtarget, String, "EdgeAttributes::headtarget", "headtarget") }
fn t102(_r: &mut Rng) -> Res { dflt!(headtarget, String, "headtarget") }
fn t103(r: &mut Rng) -> Res { one!(r, EdgeAttributes, headtooltip, String, "EdgeAttributes::headtooltip", "headtooltip") }
fn t104(_r: &mut Rng) -> Res { dflt!(headtooltip, String, "headtooltip") }
fn t105(r: &mut Rng) -> Res { one!(r, EdgeAttributes, headURL, String, "EdgeAttributes::headURL", "headURL") }
fn t106(_r: &mut Rng) -> Res { dflt!(headURL, String, "headURL") }
fn t107(r: &mut Rng) -> Res { one!(r, NodeAttributes, height, f32, "NodeAttributes::height", "height") }
fn t108(_r: &mut Rng) -> Res { dflt!(height, f32, "height") }
fn t109(r: &mut Rng) -> Res { one!(r, NodeAttributes, image, String, "NodeAttributes::image", "image") }
fn t110(_r: &mut Rng) -> Res { dflt!(image, String, "image") }
fn t111(r: &mut Rng) -> Res { one!(r, NodeAttributes, imagepos, String, "NodeAttributes::imagepos", "imagepos") }
fn t112(_r: &mut Rng) -> Res { dflt!(imagepos, String, "imagepos") }
fn t113(r: &mut Rng) -> Res { one!(r, NodeAttributes, imagescale, bool, "NodeAttributes::imagescale", "imagescale") }
fn t114(_r: &mut Rng) -> Res { dflt!(imagescale, bool, "imagescale") }
fn t115(r: &mut Rng) -> Res { one!(r, GraphAttributes, imagepath, String, "GraphAttributes::imagepath", "imagepath") }
fn t116(_r: &mut Rng) -> Res { dflt!(imagepath, String, "imagepath") }
fn t117(r: &mut Rng) -> Res { one!(r, GraphAttributes, inputscale, f32, "GraphAttributes::inputscale", "inputscale") }
fn t118(r: &mut Rng) -> Res { one!(r, GraphAttributes, K, f32, "GraphAttributes::K", "K") }
fn t119(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, K, f32, "SubgraphAttributes::K", "K") }
fn t120(_r: &mut Rng) -> Res { dflt!(K, f32, "K") }
fn t121(r: &mut Rng) -> Res { one!(r, NodeAttributes, label, String, "NodeAttributes::label", "label") }
fn t122(r: &mut Rng) -> Res { one!(r, GraphAttributes, label, String, "GraphAttributes::label", "label") }
fn t123(r: &mut Rng) -> Res { one!(r, EdgeAttributes, label, String, "EdgeAttributes::label", "label") }
fn t124(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, label, String, "SubgraphAttributes::label", "label") }
fn t125(_r: &mut Rng) -> Res { dflt!(label, String, "label") }
fn t126(r: &mut Rng) -> Res { one!(r, GraphAttributes, label_scheme, i32, "GraphAttributes::label_scheme", "label_scheme") }
fn t127(_r: &mut Rng) -> Res { dflt!(label_scheme, i32, "label_scheme") }
fn t128(r: &mut Rng) -> Res { one!(r, EdgeAttributes, labelangle, f32, "EdgeAttributes::labelangle", "labelangle") }
fn t129(_r: &mut Rng) -> Res { dflt!(labelangle, f32, "labelangle") }
fn t130(r: &mut Rng) -> Res { one!(r, EdgeAttributes, labeldistance, f32, "EdgeAttributes::labeldistance", "labeldistance") }
fn t131(_r: &mut Rng) -> Res { dflt!(labeldistance, f32, "labeldistance") }
fn t132(r: &mut Rng) -> Res { one!(r, EdgeAttributes, labelfloat, bool, "EdgeAttributes::labelfloat", "labelfloat") }
fn t133(_r: &mut Rng) -> Res { dflt!(labelfloat, bool, "labelfloat") }
fn t134(r: &mut Rng) -> Res { one!(r, EdgeAttributes, labelfontname, String, "EdgeAttributes::labelfontname", "labelfontname") }
fn t135(_r: &mut Rng) -> Res { dflt!(labelfontname, String, "labelfontname") }
fn t136(r: &mut Rng) -> Res { one!(r, EdgeAttributes, labelfontsize, f32, "EdgeAttributes::labelfontsize", "labelfontsize") }
fn t137(_r: &mut Rng) -> Res { dflt!(labelfontsize, f32, "labelfontsize") }
fn t138(r: &mut Rng) -> Res { one!(r, EdgeAttributes, labelhref, String, "EdgeAttributes::labelhref", "labelhref") }
fn t139(_r: &mut Rng) -> Res { dflt!(labelhref, String, "labelhref") }
fn t140(r: &mut Rng) -> Res { one!(r, GraphAttributes, labeljust, String, "GraphAttributes::labeljust", "labeljust") }
fn t141(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, labeljust, String, "SubgraphAttributes::labeljust", "labeljust") }
fn t142(_r: &mut Rng) -> Res { dflt!(labeljust, String, "labeljust") }
fn t143(r: &mut Rng) -> Res { one!(r, GraphAttributes, labelloc, String, "GraphAttributes::labelloc", "labelloc") }
fn t144(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, labelloc, String, "SubgraphAttributes::labelloc", "labelloc") }
fn t145(r: &mut Rng) -> Res { one!(r, NodeAttributes, labelloc, String, "NodeAttributes::labelloc", "labelloc") }
fn t146(r: &mut Rng) -> Res { one!(r, EdgeAttributes, labeltarget, String, "EdgeAttributes::labeltarget", "labeltarget") }
fn t147(r: &mut Rng) -> Res { one!(r, EdgeAttributes, labeltooltip, String, "EdgeAttributes::labeltooltip", "labeltooltip") }
fn t148(r: &mut Rng) -> Res { one!(r, EdgeAttributes, labelURL, String, "EdgeAttributes::labelURL", "labelURL") }
fn t149(r: &mut Rng) -> Res { one!(r, GraphAttributes, landscape, bool, "GraphAttributes::landscape", "landscape") }
fn t150(_r: &mut Rng) -> Res { dflt!(landscape, bool, "landscape") }
fn t151(r: &mut Rng) -> Res { one!(r, EdgeAttributes, layer, String, "EdgeAttributes::layer", "layer") }
fn t152(r: &mut Rng) -> Res { one!(r, NodeAttributes, layer, String, "NodeAttributes::layer", "layer") }
fn t153(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, layer, String, "SubgraphAttributes::layer", "layer") }
fn t154(r: &mut Rng) -> Res { one!(r, GraphAttributes, layerlistsep, String, "GraphAttributes::layerlistsep", "layerlistsep") }
fn t155(_r: &mut Rng) -> Res { dflt!(layerlistsep, String, "layerlistsep") }
fn t156(r: &mut Rng) -> Res { one!(r, GraphAttributes, layers, String, "GraphAttributes::layers", "layers") }
fn t157(r: &mut Rng) -> Res { one!(r, GraphAttributes, layerselect, String, "GraphAttributes::layerselect", "layerselect") }
fn t158(r: &mut Rng) -> Res { one!(r, GraphAttributes, layersep, String, "GraphAttributes::layersep", "layersep") }
fn t159(_r: &mut Rng) -> Res { dflt!(layersep, String, "layersep") }
fn t160(r: &mut Rng) -> Res { one!(r, GraphAttributes, layout, String, "GraphAttributes::layout", "layout") }
fn t161(r: &mut Rng) -> Res { one!(r, EdgeAttributes, len, f32, "EdgeAttributes::len", "len") }
fn t162(r: &mut Rng) -> Res { one!(r, GraphAttributes, levels, i32, "GraphAttributes::levels", "levels") }
fn t163(r: &mut Rng) -> Res { one!(r, GraphAttributes, levelsgap, f32, "GraphAttributes::levelsgap", "levelsgap") }
fn t164(_r: &mut Rng) -> Res { dflt!(levelsgap, f32, "levelsgap") }
fn t165(r: &mut Rng) -> Res { one!(r, EdgeAttributes, lhead, String, "EdgeAttributes::lhead", "lhead") }
fn t166(r: &mut Rng) -> Res { one!(r, GraphAttributes, lheight, f32, "GraphAttributes::lheight", "lheight") }
fn t167(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, lheight, f32, "SubgraphAttributes::lheight", "lheight") }
fn t168(r: &mut Rng) -> Res { one!(r, GraphAttributes, lwidth, f32, "GraphAttributes::lwidth", "lwidth") }
fn t169(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, lwidth, f32, "SubgraphAttributes::lwidth", "lwidth") }
fn t170(r: &mut Rng) -> Res { one!(r, GraphAttributes, lp, String, "GraphAttributes::lp", "lp") }
fn t171(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, lp, String, "SubgraphAttributes::lp", "lp") }
fn t172(r: &mut Rng) -> Res { one!(r, EdgeAttributes, lp, String, "EdgeAttributes::lp", "lp") }
fn t173(r: &mut Rng) -> Res { one!(r, GraphAttributes, margin, f32, "GraphAttributes::margin", "margin") }
fn t174(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, margin, f32, "SubgraphAttributes::margin", "margin") }
fn t175(r: &mut Rng) -> Res { one!(r, NodeAttributes, margin, f32, "NodeAttributes::margin", "margin") }
fn t176(r: &mut Rng) -> Res { one!(r, EdgeAttributes, ltail, String, "EdgeAttributes::ltail", "ltail") }
fn t177(r: &mut Rng) -> Res { one!(r, GraphAttributes, maxiter, i32, "GraphAttributes::maxiter", "maxiter") }
fn t178(r: &mut Rng) -> Res { one!(r, GraphAttributes, mclimit, f32, "GraphAttributes::mclimit", "mclimit") }
fn t179(_r: &mut Rng) -> Res { dflt!(mclimit, f32, "mclimit") }
fn t180(r: &mut Rng) -> Res { one!(r, GraphAttributes, mindist, f32, "GraphAttributes::mindist", "mindist") }
fn t181(_r: &mut Rng) -> Res { dflt!(mindist, f32, "mindist") }
fn t182(r: &mut Rng) -> Res { one!(r, EdgeAttributes, minlen, i32, "EdgeAttributes::minlen", "minlen") }
fn t183(_r: &mut Rng) -> Res { dflt!(minlen, i32, "minlen") }
fn t184(r: &mut Rng) -> Res { one!(r, GraphAttributes, mode, String, "GraphAttributes::mode", "mode") }
fn t185(_r: &mut Rng) -> Res { dflt!(mode, String, "mode") }
fn t186(r: &mut Rng) -> Res { one!(r, GraphAttributes, model, String, "GraphAttributes::model", "model") }
fn t187(_r: &mut Rng) -> Res { dflt!(model, String, "model") }
fn t188(r: &mut Rng) -> Res { one!(r, GraphAttributes, mosek, bool, "GraphAttributes::mosek", "mosek") }
fn t189(_r: &mut Rng) -> Res { dflt!(mosek, bool, "mosek") }
fn t190(r: &mut Rng) -> Res { one!(r, GraphAttributes, newrank, bool, "GraphAttributes::newrank", "newrank") }
fn t191(_r: &mut Rng) -> Res { dflt!(newrank, bool, "newrank") }
fn t192(r: &mut Rng) -> Res { one!(r, GraphAttributes, nodesep, f32, "GraphAttributes::nodesep", "nodesep") }
fn t193(_r: &mut Rng) -> Res { dflt!(nodesep, f32, "nodesep") }
fn t194(r: &mut Rng) -> Res { one!(r, GraphAttributes, normalize, bool, "GraphAttributes::normalize", "normalize") }
fn t195(_r: &mut Rng) -> Res { dflt!(normalize, bool, "normalize") }
fn t196(r: &mut Rng) -> Res { one!(r, GraphAttributes, notranslate, bool, "GraphAttributes::notranslate", "notranslate") }
fn t197(_r: &mut Rng) -> Res { dflt!(notranslate, bool, "notranslate") }
fn t198(r: &mut Rng) -> Res { one!(r, GraphAttributes, nslimit, f32, "GraphAttributes::nslimit", "nslimit") }
fn t199(r: &mut Rng) -> Res { one!(r, GraphAttributes, nslimit1, f32, "GraphAttributes::nslimit1", "nslimit1") }
fn t200(r: &mut Rng) -> Res { one!(r, GraphAttributes, ordering, String, "GraphAttributes::ordering", "ordering") }
fn t201(r: &mut Rng) -> Res { one!(r, NodeAttributes, ordering, String, "NodeAttributes::ordering", "ordering") }
fn t202(r: &mut Rng) -> Res { one!(r, GraphAttributes, orientation, f32, "GraphAttributes::orientation", "orientation") }
fn t203(r: &mut Rng) -> Res { one!(r, NodeAttributes, orientation, f32, "NodeAttributes::orientation", "orientation") }
fn t204(_r: &mut Rng) -> Res { dflt!(orientation, f32, "orientation") }
fn v205() -> Vec<(outputorder, &'static str)> { vec![(outputorder::breadthfirst, "breadthfirst"), (outputorder::nodesfirst, "nodesfirst"), (outputorder::edgesfirst, "edgesfirst")] }
fn t205(_r: &mut Rng) -> Res { all!(GraphAttributes, outputorder, v205(), "GraphAttributes::outputorder", "outputorder") }
fn t206(_r: &mut Rng) -> Res { edflt!(outputorder, v205(), "outputorder") }
fn t207(r: &mut Rng) -> Res { one!(r, GraphAttributes, nojustify, bool, "GraphAttributes::nojustify", "nojustify") }
fn t208(r: &mut Rng) -> Res { one!(r, NodeAttributes, nojustify, bool, "NodeAttributes::nojustify", "nojustify") }
fn t209(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, nojustify, bool, "SubgraphAttributes::nojustify", "nojustify") }
fn t210(r: &mut Rng) -> Res { one!(r, EdgeAttributes, nojustify, bool, "EdgeAttributes::nojustify", "nojustify") }
fn t211(_r: &mut Rng) -> Res { dflt!(nojustify, bool, "nojustify") }
fn t212(r: &mut Rng) -> Res { one!(r, GraphAttributes, overlap, bool, "GraphAttributes::overlap", "overlap") }
fn t213(_r: &mut Rng) -> Res { dflt!(overlap, bool, "overlap") }
fn t214(r: &mut Rng) -> Res { one!(r, GraphAttributes, overlap_shrink, bool, "GraphAttributes::overlap_shrink", "overlap_shrink") }
fn t215(_r: &mut Rng) -> Res { dflt!(overlap_shrink, bool, "overlap_shrink") }
fn t216(r: &mut Rng) -> Res { one!(r, GraphAttributes, pack, bool, "GraphAttributes::pack", "pack") }
fn t217(_r: &mut Rng) -> Res { dflt!(pack, bool, "pack") }
fn t218(r: &mut Rng) -> Res { one!(r, GraphAttributes, overlap_scaling, f32, "GraphAttributes::overlap_scaling", "overlap_scaling") }
fn t219(_r: &mut Rng) -> Res { dflt!(overlap_scaling, f32, "overlap_scaling") }
fn t220(r: &mut Rng) -> Res { one!(r, GraphAttributes, pad, f32, "GraphAttributes::pad", "pad") }
fn t221(_r: &mut Rng) -> Res { dflt!(pad, f32, "pad") }
fn t222(r: &mut Rng) -> Res { one!(r, GraphAttributes, page, f32, "GraphAttributes::page", "page") }
fn v223() -> Vec<(packmode, &'static str)> { vec![(packmode::node, "node"), (packmode::clust, "clust"), (packmode::graph, "graph"), (packmode::array, "array")] }
fn t223(_r: &mut Rng) -> Res { all!(GraphAttributes, packmode, v223(), "GraphAttributes::packmode", "packmode") }
fn t224(_r: &mut Rng) -> Res { edflt!(packmode, v223(), "packmode") }
fn v225() -> Vec<(pagedir, &'static str)> { vec![(pagedir::BL, "BL"), (pagedir::BR, "BR"), (pagedir::TL, "TL"), (pagedir::TR, "TR"), (pagedir::RB, "RB"), (pagedir::RT, "RT"), (pagedir::LB, "LB"), (pagedir::LT, "LT")] }
fn t225(_r: &mut Rng) -> Res { all!(GraphAttributes, pagedir, v225(), "GraphAttributes::pagedir", "pagedir") }
fn t226(_r: &mut Rng) -> Res { edflt!(pagedir, v225(), "pagedir") }
fn t227(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, penwidth, f32, "SubgraphAttributes::penwidth", "penwidth") }
fn t228(r: &mut Rng) -> Res { one!(r, NodeAttributes, penwidth, f32, "NodeAttributes::penwidth", "penwidth") }
fn t229(r: &mut Rng) -> Res { one!(r, EdgeAttributes, penwidth, f32, "EdgeAttributes::penwidth", "penwidth") }
fn t230(_r: &mut Rng) -> Res { dflt!(penwidth, f32, "penwidth") }
fn t231(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, peripheries, i32, "SubgraphAttributes::peripheries", "peripheries") }
fn t232(r: &mut Rng) -> Res { one!(r, NodeAttributes, peripheries, i32, "NodeAttributes::peripheries", "peripheries") }
fn t233(r: &mut Rng) -> Res { one!(r, NodeAttributes, pin, bool, "NodeAttributes::pin", "pin") }
fn t234(_r: &mut Rng) -> Res { dflt!(pin, bool, "pin") }
fn t235(r: &mut Rng) -> Res { one!(r, NodeAttributes, pos, String, "NodeAttributes::pos", "pos") }
fn t236(r: &mut Rng) -> Res { one!(r, EdgeAttributes, pos, String, "EdgeAttributes::pos", "pos") }
fn v237() -> Vec<(quadtree, &'static str)> { vec![(quadtree::normal, "normal"), (quadtree::fast, "fast"), (quadtree::none, "none")] }
fn t237(_r: &mut Rng) -> Res { all!(GraphAttributes, quadtree, v237(), "GraphAttributes::quadtree", "quadtree") }
fn t238(_r: &mut Rng) -> Res { edflt!(quadtree, v237(), "quadtree") }
fn t239(r: &mut Rng) -> Res { one!(r, GraphAttributes, quantum, f32, "GraphAttributes::quantum", "quantum") }
fn t240(_r: &mut Rng) -> Res { dflt!(quantum, f32, "quantum") }
fn v241() -> Vec<(rank, &'static str)> { vec![(rank::same, "same"), (rank::min, "min"), (rank::source, "source"), (rank::max, "max"), (rank::sink, "sink")] }
fn t241(_r: &mut Rng) -> Res { all!(SubgraphAttributes, rank, v241(), "SubgraphAttributes::rank", "rank") }
fn v242() -> Vec<(rankdir, &'static str)> { vec![(rankdir::TB, "TB"), (rankdir::BT, "BT"), (rankdir::LR, "LR"), (rankdir::RL, "RL")] }
fn t242(_r: &mut Rng) -> Res { all!(GraphAttributes, rankdir, v242(), "GraphAttributes::rankdir", "rankdir") }
fn t243(_r: &mut Rng) -> Res { edflt!(rankdir, v242(), "rankdir") }
fn t244(r: &mut Rng) -> Res { one!(r, GraphAttributes, ranksep, f32, "GraphAttributes::ranksep", "ranksep") }
fn t245(_r: &mut Rng) -> Res { dflt!(ranksep, f32, "ranksep") }
fn t246(r: &mut Rng) -> Res { one!(r, GraphAttributes, ratio, f32, "GraphAttributes::ratio", "ratio") }
fn t247(r: &mut Rng) -> Res { one!(r, NodeAttributes, rects, String, "NodeAttributes::rects", "rects") }
fn t248(r: &mut Rng) -> Res { one!(r, NodeAttributes, regular, bool, "NodeAttributes::regular", "regular") }
fn t249(_r: &mut Rng) -> Res { dflt!(regular, bool, "regular") }
fn t250(r: &mut Rng) -> Res { one!(r, GraphAttributes, remincross, bool, "GraphAttributes::remincross", "remincross") }
fn t251(_r: &mut Rng) -> Res { dflt!(remincross, bool, "remincross") }
fn t252(r: &mut Rng) -> Res { one!(r, GraphAttributes, repulsiveforce, f32, "GraphAttributes::repulsiveforce", "repulsiveforce") }
fn t253(_r: &mut Rng) -> Res { dflt!(repulsiveforce, f32, "repulsiveforce") }
fn t254(r: &mut Rng) -> Res { one!(r, GraphAttributes, resolution, f32, "GraphAttributes::resolution", "resolution") }
fn t255(_r: &mut Rng) -> Res { dflt!(resolution, f32, "resolution") }
fn t256(r: &mut Rng) -> Res { one!(r, GraphAttributes, root, String, "GraphAttributes::root", "root") }
fn t257(r: &mut Rng) -> Res { one!(r, NodeAttributes, root, String, "NodeAttributes::root", "root") }
fn t258(r: &mut Rng) -> Res { one!(r, GraphAttributes, rotate, i32, "GraphAttributes::rotate", "rotate") }
fn t259(_r: &mut Rng) -> Res { dflt!(rotate, i32, "rotate") }
fn t260(r: &mut Rng) -> Res { one!(r, GraphAttributes, rotation, f32, "GraphAttributes::rotation", "rotation") }
fn t261(_r: &mut Rng) -> Res { dflt!(rotation, f32, "rotation") }
fn t262(r: &mut Rng) -> Res { one!(r, EdgeAttributes, samehead, String, "EdgeAttributes::samehead", "samehead") }
fn t263(r: &mut Rng) -> Res { one!(r, EdgeAttributes, sametail, String, "EdgeAttributes::sametail", "sametail") }
fn t264(r: &mut Rng) -> Res { one!(r, NodeAttributes, samplepoints, i32, "NodeAttributes::samplepoints", "samplepoints") }
fn t265(_r: &mut Rng) -> Res { dflt!(samplepoints, i32, "samplepoints") }
fn t266(r: &mut Rng) -> Res { one!(r, GraphAttributes, searchsize, i32, "GraphAttributes::searchsize", "searchsize") }
fn t267(_r: &mut Rng) -> Res { dflt!(searchsize, i32, "searchsize") }
fn t268(r: &mut Rng) -> Res { one!(r, GraphAttributes, scale, f32, "GraphAttributes::scale", "scale") }
fn t269(r: &mut Rng) -> Res { one!(r, GraphAttributes, sep, f32, "GraphAttributes::sep", "sep") }
fn t270(_r: &mut Rng) -> Res { dflt!(sep, f32, "sep") }
fn t271(r: &mut Rng) -> Res { one!(r, NodeAttributes, shapefile, String, "NodeAttributes::shapefile", "shapefile") }
fn v272() -> Vec<(shape, &'static str)> { vec![(shape::box_, "box"), (shape::polygon, "polygon"), (shape::ellipse, "ellipse"), (shape::oval, "oval"), (shape::circle, "circle"), (shape::point, "point"), (shape::egg, "egg"), (shape::triangle, "triangle"), (shape::plaintext, "plaintext"), (shape::plain, "plain"), (shape::diamond, "diamond"), (shape::trapezium, "trapezium"), (shape::parallelogram, "parallelogram"), (shape::house, "house"), (shape::pentagon, "pentagon"), (shape::hexagon, "hexagon"), (shape::septagon, "septagon"), (shape::octagon, "octagon"), (shape::doublecircle, "doublecircle"), (shape::doubleoctagon, "doubleoctagon"), (shape::tripleoctagon, "tripleoctagon"), (shape::invtriangle, "invtriangle"), (shape::invtrapezium, "invtrapezium"), (shape::invhouse, "invhouse"), (shape::Mdiamond, "Mdiamond"), (shape::Msquare, "Msquare"), (shape::Mcircle, "Mcircle"), (shape::rect, "rect"), (shape::rectangle, "rectangle"), (shape::square, "square"), (shape::star, "star"), (shape::none, "none"), (shape::underline, "underline"), (shape::cylinder, "cylinder"), (shape::note, "note"), (shape::tab, "tab"), (shape::folder, "folder"), (shape::box3d, "box3d"), (shape::component, "component"), (shape::promoter, "promoter"), (shape::cds, "cds"), (shape::terminator, "terminator"), (shape::utr, "utr"), (shape::primersite, "primersite"), (shape::restrictionsite, "restrictionsite"), (shape::fivepoverhang, "fivepoverhang"), (shape::threepoverhang, "threepoverhang"), (shape::noverhang, "noverhang"), (shape::assembly, "assembly"), (shape::signature, "signature"), (shape::insulator, "insulator"), (shape::ribosite, "ribosite"), (shape::rnastab, "rnastab"), (shape::proteasesite, "proteasesite"), (shape::proteinstab, "proteinstab"), (shape::rpromoter, "rpromoter"), (shape::rarrow, "rarrow"), (shape::larrow, "larrow"), (shape::lpromoter, "lpromoter")] }
fn t272(_r: &mut Rng) -> Res { all!(NodeAttributes, shape, v272(), "NodeAttributes::shape", "shape") }
fn t273(_r: &mut Rng) -> Res { edflt!(shape, v272(), "shape") }
fn t274(r: &mut Rng) -> Res { one!(r, NodeAttributes, showboxes, i32, "NodeAttributes::showboxes", "showboxes") }
fn t275(r: &mut Rng) -> Res { one!(r, GraphAttributes, showboxes, i32, "GraphAttributes::showboxes", "showboxes") }
fn t276(r: &mut Rng) -> Res { one!(r, EdgeAttributes, showboxes, i32, "EdgeAttributes::showboxes", "showboxes") }
fn t277(_r: &mut Rng) -> Res { dflt!(showboxes, i32, "showboxes") }
fn t278(r: &mut Rng) -> Res { one!(r, NodeAttributes, sides, i32, "NodeAttributes::sides", "sides") }
fn t279(_r: &mut Rng) -> Res { dflt!(sides, i32, "sides") }
fn t280(r: &mut Rng) -> Res { one!(r, NodeAttributes, skew, f32, "NodeAttributes::skew", "skew") }
fn t281(_r: &mut Rng) -> Res { dflt!(skew, f32, "skew") }
fn v282() -> Vec<(smoothing, &'static str)> { vec![(smoothing::none, "none"), (smoothing::avg_dist, "avg_dist"), (smoothing::graph_dist, "graph_dist"), (smoothing::power_dist, "power_dist"), (smoothing::rng, "rng"), (smoothing::spring, "spring"), (smoothing::triangle, "triangle")] }
fn t282(_r: &mut Rng) -> Res { all!(GraphAttributes, smoothing, v282(), "GraphAttributes::smoothing", "smoothing") }
fn t283(_r: &mut Rng) -> Res { edflt!(smoothing, v282(), "smoothing") }
fn t284(r: &mut Rng) -> Res { one!(r, GraphAttributes, size, f32, "GraphAttributes::size", "size") }
fn t285(r: &mut Rng) -> Res { one!(r, GraphAttributes, sortv, i32, "GraphAttributes::sortv", "sortv") }
fn t286(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, sortv, i32, "SubgraphAttributes::sortv", "sortv") }
fn t287(r: &mut Rng) -> Res { one!(r, NodeAttributes, sortv, i32, "NodeAttributes::sortv", "sortv") }
fn t288(_r: &mut Rng) -> Res { dflt!(sortv, i32, "sortv") }
fn t289(r: &mut Rng) -> Res { one!(r, GraphAttributes, splines, bool, "GraphAttributes::splines", "splines") }
fn t290(r: &mut Rng) -> Res { one!(r, GraphAttributes, start, String, "GraphAttributes::start", "start") }
fn t291(r: &mut Rng) -> Res { one!(r, GraphAttributes, style, String, "GraphAttributes::style", "style") }
fn t292(r: &mut Rng) -> Res { one!(r, EdgeAttributes, style, String, "EdgeAttributes::style", "style") }
fn t293(r: &mut Rng) -> Res { one!(r, NodeAttributes, style, String, "NodeAttributes::style", "style") }
fn t294(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, style, String, "SubgraphAttributes::style", "style") }
fn t295(r: &mut Rng) -> Res { one!(r, GraphAttributes, stylesheet, String, "GraphAttributes::stylesheet", "stylesheet") }
fn t296(r: &mut Rng) -> Res { one!(r, EdgeAttributes, tail_lp, String, "EdgeAttributes::tail_lp", "tail_lp") }
fn t297(r: &mut Rng) -> Res { one!(r, EdgeAttributes, tailhref, String, "EdgeAttributes::tailhref", "tailhref") }
fn t298(r: &mut Rng) -> Res { one!(r, EdgeAttributes, taillabel, String, "EdgeAttributes::taillabel", "taillabel") }
fn t299(r: &mut Rng) -> Res { one!(r, EdgeAttributes, tailtarget, String, "EdgeAttributes::tailtarget", "tailtarget") }
fn t300(r: &mut Rng) -> Res { one!(r, EdgeAttributes, tailtooltip, String, "EdgeAttributes::tailtooltip", "tailtooltip") }
fn t301(r: &mut Rng) -> Res { one!(r, EdgeAttributes, tailURL, String, "EdgeAttributes::tailURL", "tailURL") }
fn t302(r: &mut Rng) -> Res { one!(r, EdgeAttributes, target, String, "EdgeAttributes::target", "target") }
fn t303(r: &mut Rng) -> Res { one!(r, GraphAttributes, target, String, "GraphAttributes::target", "target") }
fn t304(r: &mut Rng) -> Res { one!(r, NodeAttributes, target, String, "NodeAttributes::target", "target") }
fn t305(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, target, String, "SubgraphAttributes::target", "target") }
fn t306(r: &mut Rng) -> Res { one!(r, EdgeAttributes, tooltip, String, "EdgeAttributes::tooltip", "tooltip") }
fn t307(r: &mut Rng) -> Res { one!(r, GraphAttributes, tooltip, String, "GraphAttributes::tooltip", "tooltip") }
fn t308(r: &mut Rng) -> Res { one!(r, NodeAttributes, tooltip, String, "NodeAttributes::tooltip", "tooltip") }
fn t309(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, tooltip, String, "SubgraphAttributes::tooltip", "tooltip") }
fn t310(r: &mut Rng) -> Res { one!(r, EdgeAttributes, URL, String, "EdgeAttributes::URL", "URL") }
fn t311(r: &mut Rng) -> Res { one!(r, GraphAttributes, URL, String, "GraphAttributes::URL", "URL") }
fn t312(r: &mut Rng) -> Res { one!(r, NodeAttributes, URL, String, "NodeAttributes::URL", "URL") }
fn t313(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, URL, String, "SubgraphAttributes::URL", "URL") }
fn t314(r: &mut Rng) -> Res { one!(r, EdgeAttributes, tailclip, bool, "EdgeAttributes::tailclip", "tailclip") }
fn t315(_r: &mut Rng) -> Res { dflt!(tailclip, bool, "tailclip") }
fn t316(r: &mut Rng) -> Res { one!(r, GraphAttributes, truecolor, bool, "GraphAttributes::truecolor", "truecolor") }
fn t317(r: &mut Rng) -> Res { one!(r, NodeAttributes, vertices, String, "NodeAttributes::vertices", "vertices") }
fn t318(r: &mut Rng) -> Res { one!(r, GraphAttributes, viewport, String, "GraphAttributes::viewport", "viewport") }
fn t319(r: &mut Rng) -> Res { one!(r, GraphAttributes, voro_margin, f32, "GraphAttributes::voro_margin", "voro_margin") }
fn t320(_r: &mut Rng) -> Res { dflt!(voro_margin, f32, "voro_margin") }
fn t321(r: &mut Rng) -> Res { one!(r, EdgeAttributes, weight, i32, "EdgeAttributes::weight", "weight") }
fn t322(_r: &mut Rng) -> Res { dflt!(weight, i32, "weight") }
fn t323(r: &mut Rng) -> Res { one!(r, NodeAttributes, width, f32, "NodeAttributes::width", "width") }
fn t324(_r: &mut Rng) -> Res { dflt!(width, f32, "width") }
fn t325(r: &mut Rng) -> Res { one!(r, GraphAttributes, xdotversion, String, "GraphAttributes::xdotversion", "xdotversion") }
fn t326(r: &mut Rng) -> Res { one!(r, EdgeAttributes, xlabel, String, "EdgeAttributes::xlabel", "xlabel") }
fn t327(r: &mut Rng) -> Res { one!(r, NodeAttributes, xlabel, String, "NodeAttributes::xlabel", "xlabel") }
fn t328(r: &mut Rng) -> Res { one!(r, EdgeAttributes, xlp, String, "EdgeAttributes::xlp", "xlp") }
fn t329(r: &mut Rng) -> Res { one!(r, NodeAttributes, xlp, String, "NodeAttributes::xlp", "xlp") }
fn t330(r: &mut Rng) -> Res { one!(r, NodeAttributes, z, f32, "NodeAttributes::z", "z") }
fn t331(_r: &mut Rng) -> Res { dflt!(z, f32, "z") }
fn t332(r: &mut Rng) -> Res { one!(r, GraphAttributes, bgcolor, color_name, "GraphAttributes::bgcolor", "bgcolor") }
fn t333(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, bgcolor, color_name, "SubgraphAttributes::bgcolor", "bgcolor") }
fn t334(r: &mut Rng) -> Res { one!(r, EdgeAttributes, color, color_name, "EdgeAttributes::color", "color") }
fn t335(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, color, color_name, "SubgraphAttributes::color", "color") }
fn t336(r: &mut Rng) -> Res { one!(r, NodeAttributes, color, color_name, "NodeAttributes::color", "color") }
fn t337(_r: &mut Rng) -> Res { dflt!(color, color_name, "color") }
fn t338(r: &mut Rng) -> Res { one!(r, EdgeAttributes, fillcolor, color_name, "EdgeAttributes::fillcolor", "fillcolor") }
fn t339(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, fillcolor, color_name, "SubgraphAttributes::fillcolor", "fillcolor") }
fn t340(r: &mut Rng) -> Res { one!(r, NodeAttributes, fillcolor, color_name, "NodeAttributes::fillcolor", "fillcolor") }
fn t341(r: &mut Rng) -> Res { one!(r, GraphAttributes, fontcolor, color_name, "GraphAttributes::fontcolor", "fontcolor") }
fn t342(r: &mut Rng) -> Res { one!(r, EdgeAttributes, fontcolor, color_name, "EdgeAttributes::fontcolor", "fontcolor") }
fn t343(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, fontcolor, color_name, "SubgraphAttributes::fontcolor", "fontcolor") }
fn t344(r: &mut Rng) -> Res { one!(r, NodeAttributes, fontcolor, color_name, "NodeAttributes::fontcolor", "fontcolor") }
fn t345(r: &mut Rng) -> Res { one!(r, EdgeAttributes, labelfontcolor, color_name, "EdgeAttributes::labelfontcolor", "labelfontcolor") }
fn t346(_r: &mut Rng) -> Res { dflt!(labelfontcolor, color_name, "labelfontcolor") }
fn t347(r: &mut Rng) -> Res { one!(r, SubgraphAttributes, pencolor, color_name, "SubgraphAttributes::pencolor", "pencolor") }
fn t348(_r: &mut Rng) -> Res { dflt!(pencolor, color_name, "pencolor") }
pub fn colors() -> Vec<(color_name, &'static str)> { vec![(color_name::aliceblue, "aliceblue"), (color_name::antiquewhite, "antiquewhite"), (color_name::antiquewhite1, "antiquewhite1"), (color_name::antiquewhite2, "antiquewhite2"), (color_name::antiquewhite3, "antiquewhite3"), (color_name::antiquewhite4, "antiquewhite4"), (color_name::aqua, "aqua"), (color_name::aquamarine, "aquamarine"), (color_name::aquamarine1, "aquamarine1"), (color_name::aquamarine2, "aquamarine2"), (color_name::aquamarine3, "aquamarine3"), (color_name::aquamarine4, "aquamarine4"), (color_name::azure, "azure"), (color_name::azure1, "azure1"), (color_name::azure2, "azure2"), (color_name::azure3, "azure3"), (color_name::azure4, "azure4"), (color_name::beige, "beige"), (color_name::bisque, "bisque"), (color_name::bisque1, "bisque1"), (color_name::bisque2, "bisque2"), (color_name::bisque3, "bisque3"), (color_name::bisque4, "bisque4"), (color_name::black, "black"), (color_name::blanchedalmond, "blanchedalmond"), (color_name::blue, "blue"), (color_name::blue1, "blue1"), (color_name::blue2, "blue2"), (color_name::blue3, "blue3"), (color_name::blue4, "blue4"), (color_name::blueviolet, "blueviolet"), (color_name::brown, "brown"), (color_name::brown1, "brown1"), (color_name::brown2, "brown2"), (color_name::brown3, "brown3"), (color_name::brown4, "brown4"), (color_name::burlywood, "burlywood"), (color_name::burlywood1, "burlywood1"), (color_name::burlywood2, "burlywood2"), (color_name::burlywood3, "burlywood3"), (color_name::burlywood4, "burlywood4"), (color_name::cadetblue, "cadetblue"), (color_name::cadetblue1, "cadetblue1"), (color_name::cadetblue2, "cadetblue2"), (color_name::cadetblue3, "cadetblue3"), (color_name::cadetblue4, "cadetblue4"), (color_name::chartreuse, "chartreuse"), (color_name::chartreuse1, "chartreuse1"), (color_name::chartreuse2, "chartreuse2"), (color_name::chartreuse3, "chartreuse3"), (color_name::chartreuse4, "chartreuse4"), (color_name::chocolate, "chocolate"), (color_name::chocolate1, "chocolate1"), (color_name::chocolate2, "chocolate2"), (color_name::chocolate3, "chocolate3"), (color_name::chocolate4, "chocolate4"), (color_name::coral, "coral"), (color_name::coral1, "coral1"), (color_name::coral2, "coral2"), (color_name::coral3, "coral3"), (color_name::coral4, "coral4"), (color_name::cornflowerblue, "cornflowerblue"), (color_name::cornsilk, "cornsilk"), (color_name::cornsilk1, "cornsilk1"), (color_name::cornsilk2, "cornsilk2"), (color_name::cornsilk3, "cornsilk3"), (color_name::cornsilk4, "cornsilk4"), (color_name::crimson, "crimson"), (color_name::cyan, "cyan"), (color_name::cyan1, "cyan1"), (color_name::cyan2, "cyan2"), (color_name::cyan3, "cyan3"), (color_name::cyan4, "cyan4"), (color_name::darkblue, "darkblue"), (color_name::darkcyan, "darkcyan"), (color_name::darkgoldenrod, "darkgoldenrod"), (color_name::darkgoldenrod1, "darkgoldenrod1"), (color_name::darkgoldenrod2, "darkgoldenrod2"), (color_name::darkgoldenrod3, "darkgoldenrod3"), (color_name::darkgoldenrod4, "darkgoldenrod4"), (color_name::darkgray, "darkgray"), (color_name::darkgreen, "darkgreen"), (color_name::darkgrey, "darkgrey"), (color_name::darkkhaki, "darkkhaki"), (color_name::darkmagenta, "darkmagenta"), (color_name::darkolivegreen, "darkolivegreen"), (color_name::darkolivegreen1, "darkolivegreen1"), (color_name::darkolivegreen2, "darkolivegreen2"), (color_name::darkolivegreen3, "darkolivegreen3"), (color_name::darkolivegreen4, "darkolivegreen4"), (color_name::darkorange, "darkorange"), (color_name::darkorange1, "darkorange1"), (color_name::darkorange2, "darkorange2"), (color_name::darkorange3, "darkorange3"), (color_name::darkorange4, "darkorange4"), (color_name::darkorchid, "darkorchid"), (color_name::darkorchid1, "darkorchid1"), (color_name::darkorchid2, "darkorchid2"), (color_name::darkorchid3, "darkorchid3"), (color_name::darkorchid4, "darkorchid4"), (color_name::darkred, "darkred"), (color_name::darksalmon, "darksalmon"), (color_name::darkseagreen, "darkseagreen"), (color_name::darkseagreen1, "darkseagreen1"), (color_name::darkseagreen2, "darkseagreen2"), (color_name::darkseagreen3, "darkseagreen3"), (color_name::darkseagreen4, "darkseagreen4"), (color_name::darkslateblue, "darkslateblue"), (color_name::darkslategray, "darkslategray"), (color_name::darkslategray1, "darkslategray1"), (color_name::darkslategray2, "darkslategray2"), (color_name::darkslategray3, "darkslategray3"), (color_name::darkslategray4, "darkslategray4"), (color_name::darkslategrey, "darkslategrey"), (color_name::darkturquoise, "darkturquoise"), (color_name::darkviolet, "darkviolet"), (color_name::deeppink, "deeppink"), (color_name::deeppink1, "deeppink1"), (color_name::deeppink2, "deeppink2"), (color_name::deeppink3, "deeppink3"), (color_name::deeppink4, "deeppink4"), (color_name::deepskyblue, "deepskyblue"), (color_name::deepskyblue1, "deepskyblue1"), (color_name::deepskyblue2, "deepskyblue2"), (color_name::deepskyblue3, "deepskyblue3"), (color_name::deepskyblue4, "deepskyblue4"), (color_name::dimgray, "dimgray"), (color_name::dimgrey, "dimgrey"), (color_name::dodgerblue, "dodgerblue"), (color_name::dodgerblue1, "dodgerblue1"), (color_name::dodgerblue2, "dodgerblue2"), (color_name::dodgerblue3, "dodgerblue3"), (color_name::dodgerblue4, "dodgerblue4"), (color_name::firebrick, "firebrick"), (color_name::firebrick1, "firebrick1"), (color_name::firebrick2, "firebrick2"), (color_name::firebrick3, "firebrick3"), (color_name::firebrick4, "firebrick4"), (color_name::floralwhite, "floralwhite"), (color_name::forestgreen, "forestgreen"), (color_name::fuchsia, "fuchsia"), (color_name::gainsboro, "gainsboro"), (color_name::ghostwhite, "ghostwhite"), (color_name::gold, "gold"), (color_name::gold1, "gold1"), (color_name::gold2, "gold2"), (color_name::gold3, "gold3"), (color_name::gold4, "gold4"), (color_name::goldenrod, "goldenrod"), (color_name::goldenrod1, "goldenrod1"), (color_name::goldenrod2, "goldenrod2"), (color_name::goldenrod3, "goldenrod3"), (color_name::goldenrod4, "goldenrod4"), (color_name::gray, "gray"), (color_name::gray0, "gray0"), (color_name::gray1, "gray1"), (color_name::gray10, "gray10"), (color_name::gray100, "gray100"), (color_name::gray11, "gray11"), (color_name::gray12, "gray12"), (color_name::gray13, "gray13"), (color_name::gray14, "gray14"), (color_name::gray15, "gray15"), (color_name::gray16, "gray16"), (color_name::gray17, "gray17"), (color_name::gray18, "gray18"), (color_name::gray19, "gray19"), (color_name::gray2, "gray2"), (color_name::gray20, "gray20"), (color_name::gray21, "gray21"), (color_name::gray22, "gray22"), (color_name::gray23, "gray23"), (color_name::gray24, "gray24"), (color_name::gray25, "gray25"), (color_name::gray26, "gray26"), (color_name::gray27, "gray27"), (color_name::gray28, "gray28"), (color_name::gray29, "gray29"), (color_name::gray3, "gray3"), (color_name::gray30, "gray30"), (color_name::gray31, "gray31"), (color_name::gray32, "gray32"), (color_name::gray33, "gray33"), (color_name::gray34, "gray34"), (color_name::gray35, "gray35"), (color_name::gray36, "gray36"), (color_name::gray37, "gray37"), (color_name::gray38, "gray38"), (color_name::gray39, "gray39"), (color_name::gray4, "gray4"), (color_name::gray40, "gray40"), (color_name::gray41, "gray41"), (color_name::gray42, "gray42"), (color_name::gray43, "gray43"), (color_name::gray44, "gray44"), (color_name::gray45, "gray45"), (color_name::gray46, "gray46"), (color_name::gray47, "gray47"), (color_name::gray48, "gray48"), (color_name::gray49, "gray49"), (color_name::gray5, "gray5"), (color_name::gray50, "gray50"), (color_name::gray51, "gray51"), (color_name::gray52, "gray52"), (color_name::gray53, "gray53"), (color_name::gray54, "gray54"), (color_name::gray55, "gray55"), (color_name::gray56, "gray56"), (color_name::gray57, "gray57"), (color_name::gray58, "gray58"), (color_name::gray59, "gray59"), (color_name::gray6, "gray6"), (color_name::gray60, "gray60"), (color_name::gray61, "gray61"), (color_name::gray62, "gray62"), (color_name::gray63, "gray63"), (color_name::gray64, "gray64"), (color_name::gray65, "gray65"), (color_name::gray66, "gray66"), (color_name::gray67, "gray67"), (color_name::gray68, "gray68"), (color_name::gray69, "gray69"), (color_name::gray7, "gray7"), (color_name::gray70, "gray70"), (color_name::gray71, "gray71"), (color_name::gray72, "gray72"), (color_name::gray73, "gray73"), (color_name::gray74, "gray74"), (color_name::gray75, "gray75"), (color_name::gray76, "gray76"), (color_name::gray77, "gray77"), (color_name::gray78, "gray78"), (color_name::gray79, "gray79"), (color_name::gray8, "gray8"), (color_name::gray80, "gray80"), (color_name::gray81, "gray81"), (color_name::gray82, "gray82"), (color_name::gray83, "gray83"), (color_name::gray84, "gray84"), (color_name::gray85, "gray85"), (color_name::gray86, "gray86"), (color_name::gray87, "gray87"), (color_name::gray88, "gray88"), (color_name::gray89, "gray89"), (color_name::gray9, "gray9"), (color_name::gray90, "gray90"), (color_name::gray91, "gray91"), (color_name::gray92, "gray92"), (color_name::gray93, "gray93"), (color_name::gray94, "gray94"), (color_name::gray95, "gray95"), (color_name::gray96, "gray96"), (color_name::gray97, "gray97"), (color_name::gray98, "gray98"), (color_name::gray99, "gray99"), (color_name::green, "green"), (color_name::green1, "green1"), (color_name::green2, "green2"), (color_name::green3, "green3"), (color_name::green4, "green4"), (color_name::greenyellow, "greenyellow"), (color_name::grey, "grey"), (color_name::grey0, "grey0"), (color_name::grey1, "grey1"), (color_name::grey10, "grey10"), (color_name::grey100, "grey100"), (color_name::grey11, "grey11"), (color_name::grey12, "grey12"), (color_name::grey13, "grey13"), (color_name::grey14, "grey14"), (color_name::grey15, "grey15"), (color_name::grey16, "grey16"), (color_name::grey17, "grey17"), (color_name::grey18, "grey18"), (color_name::grey19, "grey19"), (color_name::grey2, "grey2"), (color_name::grey20, "grey20"), (color_name::grey21, "grey21"), (color_name::grey22, "grey22"), (color_name::grey23, "grey23"), (color_name::grey24, "grey24"), (color_name::grey25, "grey25"), (color_name::grey26, "grey26"), (color_name::grey27, "grey27"), (color_name::grey28, "grey28"), (color_name::grey29, "grey29"), (color_name::grey3, "grey3"), (color_name::grey30, "grey30"), (color_name::grey31, "grey31"), (color_name::grey32, "grey32"), (color_name::grey33, "grey33"), (color_name::grey34, "grey34"), (color_name::grey35, "grey35"), (color_name::grey36, "grey36"), (color_name::grey37, "grey37"), (color_name::grey38, "grey38"), (color_name::grey39, "grey39"), (color_name::grey4, "grey4"), (color_name::grey40, "grey40"), (color_name::grey41, "grey41"), (color_name::grey42, "grey42"), (color_name::grey43, "grey43"), (color_name::grey44, "grey44"), (color_name::grey45, "grey45"), (color_name::grey46, "grey46"), (color_name::grey47, "grey47"), (color_name::grey48, "grey48"), (color_name::grey49, "grey49"), (color_name::grey5, "grey5"), (color_name::grey50, "grey50"), (color_name::grey51, "grey51"), (color_name::grey52, "grey52"), (color_name::grey53, "grey53"), (color_name::grey54, "grey54"), (color_name::grey55, "grey55"), (color_name::grey56, "grey56"), (color_name::grey57, "grey57"), (color_name::grey58, "grey58"), (color_name::grey59, "grey59"), (color_name::grey6, "grey6"), (color_name::grey60, "grey60"), (color_name::grey61, "grey61"), (color_name::grey62, "grey62"), (color_name::grey63, "grey63"), (color_name::grey64, "grey64"), (color_name::grey65, "grey65"), (color_name::grey66, "grey66"), (color_name::grey67, "grey67"), (color_name::grey68, "grey68"), (color_name::grey69, "grey69"), (color_name::grey7, "grey7"), (color_name::grey70, "grey70"), (color_name::grey71, "grey71"), (color_name::grey72, "grey72"), (color_name::grey73, "grey73"), (color_name::grey74, "grey74"), (color_name::grey75, "grey75"), (color_name::grey76, "grey76"), (color_name::grey77, "grey77"), (color_name::grey78, "grey78"), (color_name::grey79, "grey79"), (color_name::grey8, "grey8"), (color_name::grey80, "grey80"), (color_name::grey81, "grey81"), (color_name::grey82, "grey82"), (color_name::grey83, "grey83"), (color_name::grey84, "grey84"), (color_name::grey85, "grey85"), (color_name::grey86, "grey86"), (color_name::grey87, "grey87"), (color_name::grey88, "grey88"), (color_name::grey89, "grey89"), (color_name::grey9, "grey9"), (color_name::grey90, "grey90"), (color_name::grey91, "grey91"), (color_name::grey92, "grey92"), (color_name::grey93, "grey93"), (color_name::grey94, "grey94"), (color_name::grey95, "grey95"), (color_name::grey96, "grey96"), (color_name::grey97, "grey97"), (color_name::grey98, "grey98"), (color_name::grey99, "grey99"), (color_name::honeydew, "honeydew"), (color_name::honeydew1, "honeydew1"), (color_name::honeydew2, "honeydew2"), (color_name::honeydew3, "honeydew3"), (color_name::honeydew4, "honeydew4"), (color_name::hotpink, "hotpink"), (color_name::hotpink1, "hotpink1"), (color_name::hotpink2, "hotpink2"), (color_name::hotpink3, "hotpink3"), (color_name::hotpink4, "hotpink4"), (color_name::indianred, "indianred"), (color_name::indianred1, "indianred1"), (color_name::indianred2, "indianred2"), (color_name::indianred3, "indianred3"), (color_name::indianred4, "indianred4"), (color_name::indigo, "indigo"), (color_name::invis, "invis"), (color_name::ivory, "ivory"), (color_name::ivory1, "ivory1"), (color_name::ivory2, "ivory2"), (color_name::ivory3, "ivory3"), (color_name::ivory4, "ivory4"), (color_name::khaki, "khaki"), (color_name::khaki1, "khaki1"), (color_name::khaki2, "khaki2"), (color_name::khaki3, "khaki3"), (color_name::khaki4, "khaki4"), (color_name::lavender, "lavender"), (color_name::lavenderblush, "lavenderblush"), (color_name::lavenderblush1, "lavenderblush1"), (color_name::lavenderblush2, "lavenderblush2"), (color_name::lavenderblush3, "lavenderblush3"), (color_name::lavenderblush4, "lavenderblush4"), (color_name::lawngreen, "lawngreen"), (color_name::lemonchiffon, "lemonchiffon"), (color_name::lemonchiffon1, "lemonchiffon1"), (color_name::lemonchiffon2, "lemonchiffon2"), (color_name::lemonchiffon3, "lemonchiffon3"), (color_name::lemonchiffon4, "lemonchiffon4"), (color_name::lightblue, "lightblue"), (color_name::lightblue1, "lightblue1"), (color_name::lightblue2, "lightblue2"), (color_name::lightblue3, "lightblue3"), (color_name::lightblue4, "lightblue4"), (color_name::lightcoral, "lightcoral"), (color_name::lightcyan, "lightcyan"), (color_name::lightcyan1, "lightcyan1"), (color_name::lightcyan2, "lightcyan2"), (color_name::lightcyan3, "lightcyan3"), (color_name::lightcyan4, "lightcyan4"), (color_name::lightgoldenrod, "lightgoldenrod"), (color_name::lightgoldenrod1, "lightgoldenrod1"), (color_name::lightgoldenrod2, "lightgoldenrod2"), (color_name::lightgoldenrod3, "lightgoldenrod3"), (color_name::lightgoldenrod4, "lightgoldenrod4"), (color_name::lightgoldenrodyellow, "lightgoldenrodyellow"), (color_name::lightgray, "lightgray"), (color_name::lightgreen, "lightgreen"), (color_name::lightgrey, "lightgrey"), (color_name::lightpink, "lightpink"), (color_name::lightpink1, "lightpink1"), (color_name::lightpink2, "lightpink2"), (color_name::lightpink3, "lightpink3"), (color_name::lightpink4, "lightpink4"), (color_name::lightsalmon, "lightsalmon"), (color_name::lightsalmon1, "lightsalmon1"), (color_name::lightsalmon2, "lightsalmon2"), (color_name::lightsalmon3, "lightsalmon3"), (color_name::lightsalmon4, "lightsalmon4"), (color_name::lightseagreen, "lightseagreen"), (color_name::lightskyblue, "lightskyblue"), (color_name::lightskyblue1, "lightskyblue1"), (color_name::lightskyblue2, "lightskyblue2"), (color_name::lightskyblue3, "lightskyblue3"), (color_name::lightskyblue4, "lightskyblue4"), (color_name::lightslateblue, "lightslateblue"), (color_name::lightslategray, "lightslategray"), (color_name::lightslategrey, "lightslategrey"), (color_name::lightsteelblue, "lightsteelblue"), (color_name::lightsteelblue1, "lightsteelblue1"), (color_name::lightsteelblue2, "lightsteelblue2"), (color_name::lightsteelblue3, "lightsteelblue3"), (color_name::lightsteelblue4, "lightsteelblue4"), (color_name::lightyellow, "lightyellow"), (color_name::lightyellow1, "lightyellow1"), (color_name::lightyellow2, "lightyellow2"), (color_name::lightyellow3, "lightyellow3"), (color_name::lightyellow4, "lightyellow4"), (color_name::lime, "lime"), (color_name::limegreen, "limegreen"), (color_name::linen, "linen"), (color_name::magenta, "magenta"), (color_name::magenta1, "magenta1"), (color_name::magenta2, "magenta2"), (color_name::magenta3, "magenta3"), (color_name::magenta4, "magenta4"), (color_name::maroon, "maroon"), (color_name::maroon1, "maroon1"), (color_name::maroon2, "maroon2"), (color_name::maroon3, "maroon3"), (color_name::maroon4, "maroon4"), (color_name::mediumaquamarine, "mediumaquamarine"), (color_name::mediumblue, "mediumblue"), (color_name::mediumorchid, "mediumorchid"), (color_name::mediumorchid1, "mediumorchid1"), (color_name::mediumorchid2, "mediumorchid2"), (color_name::mediumorchid3, "mediumorchid3"), (color_name::mediumorchid4, "mediumorchid4"), (color_name::mediumpurple, "mediumpurple"), (color_name::mediumpurple1, "mediumpurple1"), (color_name::mediumpurple2, "mediumpurple2"), (color_name::mediumpurple3, "mediumpurple3"), (color_name::mediumpurple4, "mediumpurple4"), (color_name::mediumseagreen, "mediumseagreen"), (color_name::mediumslateblue, "mediumslateblue"), (color_name::mediumspringgreen, "mediumspringgreen"), (color_name::mediumturquoise, "mediumturquoise"), (color_name::mediumvioletred, "mediumvioletred"), (color_name::midnightblue, "midnightblue"), (color_name::mintcream, "mintcream"), (color_name::mistyrose, "mistyrose"), (color_name::mistyrose1, "mistyrose1"), (color_name::mistyrose2, "mistyrose2"), (color_name::mistyrose3, "mistyrose3"), (color_name::mistyrose4, "mistyrose4"), (color_name::moccasin, "moccasin"), (color_name::navajowhite, "navajowhite"), (color_name::navajowhite1, "navajowhite1"), (color_name::navajowhite2, "navajowhite2"), (color_name::navajowhite3, "navajowhite3"), (color_name::navajowhite4, "navajowhite4"), (color_name::navy, "navy"), (color_name::navyblue, "navyblue"), (color_name::none, "none"), (color_name::oldlace, "oldlace"), (color_name::olive, "olive"), (color_name::olivedrab, "olivedrab"), (color_name::olivedrab1, "olivedrab1"), (color_name::olivedrab2, "olivedrab2"), (color_name::olivedrab3, "olivedrab3"), (color_name::olivedrab4, "olivedrab4"), (color_name::orange, "orange"), (color_name::orange1, "orange1"), (color_name::orange2, "orange2"), (color_name::orange3, "orange3"), (color_name::orange4, "orange4"), (color_name::orangered, "orangered"), (color_name::orangered1, "orangered1"), (color_name::orangered2, "orangered2"), (color_name::orangered3, "orangered3"), (color_name::orangered4, "orangered4"), (color_name::orchid, "orchid"), (color_name::orchid1, "orchid1"), (color_name::orchid2, "orchid2"), (color_name::orchid3, "orchid3"), (color_name::orchid4, "orchid4"), (color_name::palegoldenrod, "palegoldenrod"), (color_name::palegreen, "palegreen"), (color_name::palegreen1, "palegreen1"), (color_name::palegreen2, "palegreen2"), (color_name::palegreen3, "palegreen3"), (color_name::palegreen4, "palegreen4"), (color_name::paleturquoise, "paleturquoise"), (color_name::paleturquoise1, "paleturquoise1"), (color_name::paleturquoise2, "paleturquoise2"), (color_name::paleturquoise3, "paleturquoise3"), (color_name::paleturquoise4, "paleturquoise4"), (color_name::palevioletred, "palevioletred"), (color_name::palevioletred1, "palevioletred1"), (color_name::palevioletred2, "palevioletred2"), (color_name::palevioletred3, "palevioletred3"), (color_name::palevioletred4, "palevioletred4"), (color_name::papayawhip, "papayawhip"), (color_name::peachpuff, "peachpuff"), (color_name::peachpuff1, "peachpuff1"), (color_name::peachpuff2, "peachpuff2"), (color_name::peachpuff3, "peachpuff3"), (color_name::peachpuff4, "peachpuff4"), (color_name::peru, "peru"), (color_name::pink, "pink"), (color_name::pink1, "pink1"), (color_name::pink2, "pink2"), (color_name::pink3, "pink3"), (color_name::pink4, "pink4"), (color_name::plum, "plum"), (color_name::plum1, "plum1"), (color_name::plum2, "plum2"), (color_name::plum3, "plum3"), (color_name::plum4, "plum4"), (color_name::powderblue, "powderblue"), (color_name::purple, "purple"), (color_name::purple1, "purple1"), (color_name::purple2, "purple2"), (color_name::purple3, "purple3"), (color_name::purple4, "purple4"), (color_name::rebeccapurple, "rebeccapurple"), (color_name::red, "red"), (color_name::red1, "red1"), (color_name::red2, "red2"), (color_name::red3, "red3"), (color_name::red4, "red4"), (color_name::rosybrown, "rosybrown"), (color_name::rosybrown1, "rosybrown1"), (color_name::rosybrown2, "rosybrown2"), (color_name::rosybrown3, "rosybrown3"), (color_name::rosybrown4, "rosybrown4"), (color_name::royalblue, "royalblue"), (color_name::royalblue1, "royalblue1"), (color_name::royalblue2, "royalblue2"), (color_name::royalblue3, "royalblue3"), (color_name::royalblue4, "royalblue4"), (color_name::saddlebrown, "saddlebrown"), (color_name::salmon, "salmon"), (color_name::salmon1, "salmon1"), (color_name::salmon2, "salmon2"), (color_name::salmon3, "salmon3"), (color_name::salmon4, "salmon4"), (color_name::sandybrown, "sandybrown"), (color_name::seagreen, "seagreen"), (color_name::seagreen1, "seagreen1"), (color_name::seagreen2, "seagreen2"), (color_name::seagreen3, "seagreen3"), (color_name::seagreen4, "seagreen4"), (color_name::seashell, "seashell"), (color_name::seashell1, "seashell1"), (color_name::seashell2, "seashell2"), (color_name::seashell3, "seashell3"), (color_name::seashell4, "seashell4"), (color_name::sienna, "sienna"), (color_name::sienna1, "sienna1"), (color_name::sienna2, "sienna2"), (color_name::sienna3, "sienna3"), (color_name::sienna4, "sienna4"), (color_name::silver, "silver"), (color_name::skyblue, "skyblue"), (color_name::skyblue1, "skyblue1"), (color_name::skyblue2, "skyblue2"), (color_name::skyblue3, "skyblue3"), (color_name::skyblue4, "skyblue4"), (color_name::slateblue, "slateblue"), (color_name::slateblue1, "slateblue1"), (color_name::slateblue2, "slateblue2"), (color_name::slateblue3, "slateblue3"), (color_name::slateblue4, "slateblue4"), (color_name::slategray, "slategray"), (color_name::slategray1, "slategray1"), (color_name::slategray2, "slategray2"), (color_name::slategray3, "slategray3"), (color_name::slategray4, "slategray4"), (color_name::slategrey, "slategrey"), (color_name::snow, "snow"), (color_name::snow1, "snow1"), (color_name::snow2, "snow2"), (color_name::snow3, "snow3"), (color_name::snow4, "snow4"), (color_name::springgreen, "springgreen"), (color_name::springgreen1, "springgreen1"), (color_name::springgreen2, "springgreen2"), (color_name::springgreen3, "springgreen3"), (color_name::springgreen4, "springgreen4"), (color_name::steelblue, "steelblue"), (color_name::steelblue1, "steelblue1"), (color_name::steelblue2, "steelblue2"), (color_name::steelblue3, "steelblue3"), (color_name::steelblue4, "steelblue4"), (color_name::tan, "tan"), (color_name::tan1, "tan1"), (color_name::tan2, "tan2"), (color_name::tan3, "tan3"), (color_name::tan4, "tan4"), (color_name::teal, "teal"), (color_name::thistle, "thistle"), (color_name::thistle1, "thistle1"), (color_name::thistle2, "thistle2"), (color_name::thistle3, "thistle3"), (color_name::thistle4, "thistle4"), (color_name::tomato, "tomato"), (color_name::tomato1, "tomato1"), (color_name::tomato2, "tomato2"), (color_name::tomato3, "tomato3"), (color_name::tomato4, "tomato4"), (color_name::transparent, "transparent"), (color_name::turquoise, "turquoise"), (color_name::turquoise1, "turquoise1"), (color_name::turquoise2, "turquoise2"), (color_name::turquoise3, "turquoise3"), (color_name::turquoise4, "turquoise4"), (color_name::violet, "violet"), (color_name::violetred, "violetred"), (color_name::violetred1, "violetred1"), (color_name::violetred2, "violetred2"), (color_name::violetred3, "violetred3"), (color_name::violetred4, "violetred4"), (color_name::webgray, "webgray"), (color_name::webgreen, "webgreen"), (color_name::webgrey, "webgrey"), (color_name::webmaroon, "webmaroon"), (color_name::webpurple, "webpurple"), (color_name::wheat, "wheat"), (color_name::wheat1, "wheat1"), (color_name::wheat2, "wheat2"), (color_name::wheat3, "wheat3"), (color_name::wheat4, "wheat4"), (color_name::white, "white"), (color_name::whitesmoke, "whitesmoke"), (color_name::x11gray, "x11gray"), (color_name::x11green, "x11green"), (color_name::x11grey, "x11grey"), (color_name::x11maroon, "x11maroon"), (color_name::x11purple, "x11purple"), (color_name::yellow, "yellow"), (color_name::yellow1, "yellow1"), (color_name::yellow2, "yellow2"), (color_name::yellow3, "yellow3"), (color_name::yellow4, "yellow4"), (color_name::yellowgreen, "yellowgreen")] }
pub const ALL: &[fn(&mut Rng) -> Res] = &[t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, t17, t18, t19, t20, t21, t22, t23, t24, t25, t26, t27, t28, t29, t30, t31, t32, t33, t34, t35, t36, t37, t38, t39, t40, t41, t42, t43, t44, t45, t46, t47, t48, t49, t50, t51, t52, t53, t54, t55, t56, t57, t58, t59, t60, t61, t62, t63, t64, t65, t66, t67, t68, t69, t70, t71, t72, t73, t74, t75, t76, t77, t78, t79, t80, t81, t82, t83, t84, t85, t86, t87, t88, t89, t90, t91, t92, t93, t94, t95, t96, t97, t98, t99, t100, t101, t102, t103, t104, t105, t106, t107, t108, t109, t110, t111, t112, t113, t114, t115, t116, t117, t118, t119, t120, t121, t122, t123, t124, t125, t126, t127, t128, t129, t130, t131, t132, t133, t134, t135, t136, t137, t138, t139, t140, t141, t142, t143, t144, t145, t146, t147, t148, t149, t150, t151, t152, t153, t154, t155, t156, t157, t158, t159, t160, t161, t162, t163, t164, t165, t166, t167, t168, t169, t170, t171, t172, t173, t174, t175, t176, t177, t178, t179, t180, t181, t182, t183, t184, t185, t186, t187, t188, t189, t190, t191, t192, t193, t194, t195, t196, t197, t198, t199, t200, t201, t202, t203, t204, t205, t206, t207, t208, t209, t210, t211, t212, t213, t214, t215, t216, t217, t218, t219, t220, t221, t222, t223, t224, t225, t226, t227, t228, t229, t230, t231, t232, t233, t234, t235, t236, t237, t238, t239, t240, t241, t242, t243, t244, t245, t246, t247, t248, t249, t250, t251, t252, t253, t254, t255, t256, t257, t258, t259, t260, t261, t262, t263, t264, t265, t266, t267, t268, t269, t270, t271, t272, t273, t274, t275, t276, t277, t278, t279, t280, t281, t282, t283, t284, t285, t286, t287, t288, t289, t290, t291, t292, t293, t294, t295, t296, t297, t298, t299, t300, t301, t302, t303, t304, t305, t306, t307, t308, t309, t310, t311, t312, t313, t314, t315, t316, t317, t318, t319, t320, t321, t322, t323, t324, t325, t326, t327, t328, t329, t330, t331, t332, t333, t334, t335, t336, t337, t338, t339, t340, t341, t342, t343, t344, t345, t346, t347, t348];
