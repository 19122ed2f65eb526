// every enumerator of the library's name tables with the name it stands for (order: spec/data/names.json)
#pragma once
static std::vector<wordring::html::ns_name> const all_ns{ wordring::html::ns_name::HTML, wordring::html::ns_name::MathML, wordring::html::ns_name::SVG, wordring::html::ns_name::XLink, wordring::html::ns_name::XML, wordring::html::ns_name::XMLNS };
static std::vector<wordring::html::tag_name> const all_tag{ wordring::html::tag_name::A, wordring::html::tag_name::Abbr, wordring::html::tag_name::Abs, wordring::html::tag_name::Address, wordring::html::tag_name::AltGlyph, wordring::html::tag_name::AltGlyphDef, wordring::html::tag_name::AltGlyphItem, wordring::html::tag_name::Altglyph, wordring::html::tag_name::Altglyphdef, wordring::html::tag_name::Altglyphitem, wordring::html::tag_name::And, wordring::html::tag_name::Animate, wordring::html::tag_name::AnimateColor, wordring::html::tag_name::AnimateMotion, wordring::html::tag_name::AnimateTransform, wordring::html::tag_name::Animatecolor, wordring::html::tag_name::Animatemotion, wordring::html::tag_name::Animatetransform, wordring::html::tag_name::Annotation, wordring::html::tag_name::Annotation_xml, wordring::html::tag_name::Applet, wordring::html::tag_name::Apply, wordring::html::tag_name::Approx, wordring::html::tag_name::Arccos, wordring::html::tag_name::Arccosh, wordring::html::tag_name::Arccot, wordring::html::tag_name::Arccoth, wordring::html::tag_name::Arccsc, wordring::html::tag_name::Arccsch, wordring::html::tag_name::Arcsec, wordring::html::tag_name::Arcsech, wordring::html::tag_name::Arcsin, wordring::html::tag_name::Arcsinh, wordring::html::tag_name::Arctan, wordring::html::tag_name::Arctanh, wordring::html::tag_name::Area, wordring::html::tag_name::Arg, wordring::html::tag_name::Article, wordring::html::tag_name::Aside, wordring::html::tag_name::Audio, wordring::html::tag_name::B, wordring::html::tag_name::Base, wordring::html::tag_name::Basefont, wordring::html::tag_name::Bdi, wordring::html::tag_name::Bdo, wordring::html::tag_name::Bgsound, wordring::html::tag_name::Big, wordring::html::tag_name::Bind, wordring::html::tag_name::Blockquote, wordring::html::tag_name::Body, wordring::html::tag_name::Br, wordring::html::tag_name::Button, wordring::html::tag_name::Bvar, wordring::html::tag_name::Canvas, wordring::html::tag_name::Caption, wordring::html::tag_name::Card, wordring::html::tag_name::Cartesianproduct, wordring::html::tag_name::Cbytes, wordring::html::tag_name::Ceiling, wordring::html::tag_name::Center, wordring::html::tag_name::Cerror, wordring::html::tag_name::Ci, wordring::html::tag_name::Circle, wordring::html::tag_name::Cite, wordring::html::tag_name::ClipPath, wordring::html::tag_name::Clippath, wordring::html::tag_name::Cn, wordring::html::tag_name::Code, wordring::html::tag_name::Codomain, wordring::html::tag_name::Col, wordring::html::tag_name::Colgroup, wordring::html::tag_name::Complexes, wordring::html::tag_name::Compose, wordring::html::tag_name::Condition, wordring::html::tag_name::Conjugate, wordring::html::tag_name::Cos, wordring::html::tag_name::Cosh, wordring::html::tag_name::Cot, wordring::html::tag_name::Coth, wordring::html::tag_name::Cs, wordring::html::tag_name::Csc, wordring::html::tag_name::Csch, wordring::html::tag_name::Csymbol, wordring::html::tag_name::Curl, wordring::html::tag_name::Data, wordring::html::tag_name::Datalist, wordring::html::tag_name::Dd, wordring::html::tag_name::Declare, wordring::html::tag_name::Defs, wordring::html::tag_name::Degree, wordring::html::tag_name::Del, wordring::html::tag_name::Desc, wordring::html::tag_name::Details, wordring::html::tag_name::Determinant, wordring::html::tag_name::Dfn, wordring::html::tag_name::Dialog, wordring::html::tag_name::Diff, wordring::html::tag_name::Dir, wordring::html::tag_name::Discard, wordring::html::tag_name::Div, wordring::html::tag_name::Divergence, wordring::html::tag_name::Divide, wordring::html::tag_name::Dl, wordring::html::tag_name::Domain, wordring::html::tag_name::Domainofapplication, wordring::html::tag_name::Dt, wordring::html::tag_name::Ellipse, wordring::html::tag_name::Em, wordring::html::tag_name::Embed, wordring::html::tag_name::Emptyset, wordring::html::tag_name::Eq, wordring::html::tag_name::Equivalent, wordring::html::tag_name::Eulergamma, wordring::html::tag_name::Exists, wordring::html::tag_name::Exp, wordring::html::tag_name::Exponentiale, wordring::html::tag_name::Factorial, wordring::html::tag_name::Factorof, wordring::html::tag_name::False, wordring::html::tag_name::FeBlend, wordring::html::tag_name::FeColorMatrix, wordring::html::tag_name::FeComponentTransfer, wordring::html::tag_name::FeComposite, wordring::html::tag_name::FeConvolveMatrix, wordring::html::tag_name::FeDiffuseLighting, wordring::html::tag_name::FeDisplacementMap, wordring::html::tag_name::FeDistantLight, wordring::html::tag_name::FeDropShadow, wordring::html::tag_name::FeFlood, wordring::html::tag_name::FeFuncA, wordring::html::tag_name::FeFuncB, wordring::html::tag_name::FeFuncG, wordring::html::tag_name::FeFuncR, wordring::html::tag_name::FeGaussianBlur, wordring::html::tag_name::FeImage, wordring::html::tag_name::FeMerge, wordring::html::tag_name::FeMergeNode, wordring::html::tag_name::FeMorphology, wordring::html::tag_name::FeOffset, wordring::html::tag_name::FePointLight, wordring::html::tag_name::FeSpecularLighting, wordring::html::tag_name::FeSpotLight, wordring::html::tag_name::FeTile, wordring::html::tag_name::FeTurbulence, wordring::html::tag_name::Feblend, wordring::html::tag_name::Fecolormatrix, wordring::html::tag_name::Fecomponenttransfer, wordring::html::tag_name::Fecomposite, wordring::html::tag_name::Feconvolvematrix, wordring::html::tag_name::Fediffuselighting, wordring::html::tag_name::Fedisplacementmap, wordring::html::tag_name::Fedistantlight, wordring::html::tag_name::Fedropshadow, wordring::html::tag_name::Feflood, wordring::html::tag_name::Fefunca, wordring::html::tag_name::Fefuncb, wordring::html::tag_name::Fefuncg, wordring::html::tag_name::Fefuncr, wordring::html::tag_name::Fegaussianblur, wordring::html::tag_name::Feimage, wordring::html::tag_name::Femerge, wordring::html::tag_name::Femergenode, wordring::html::tag_name::Femorphology, wordring::html::tag_name::Feoffset, wordring::html::tag_name::Fepointlight, wordring::html::tag_name::Fespecularlighting, wordring::html::tag_name::Fespotlight, wordring::html::tag_name::Fetile, wordring::html::tag_name::Feturbulence, wordring::html::tag_name::Fieldset, wordring::html::tag_name::Figcaption, wordring::html::tag_name::Figure, wordring::html::tag_name::Filter, wordring::html::tag_name::Floor, wordring::html::tag_name::Fn, wordring::html::tag_name::Font, wordring::html::tag_name::Footer, wordring::html::tag_name::Forall, wordring::html::tag_name::ForeignObject, wordring::html::tag_name::Foreignobject, wordring::html::tag_name::Form, wordring::html::tag_name::Frame, wordring::html::tag_name::Frameset, wordring::html::tag_name::G, wordring::html::tag_name::Gcd, wordring::html::tag_name::Geq, wordring::html::tag_name::GlyphRef, wordring::html::tag_name::Glyphref, wordring::html::tag_name::Grad, wordring::html::tag_name::Gt, wordring::html::tag_name::H1, wordring::html::tag_name::H2, wordring::html::tag_name::H3, wordring::html::tag_name::H4, wordring::html::tag_name::H5, wordring::html::tag_name::H6, wordring::html::tag_name::Head, wordring::html::tag_name::Header, wordring::html::tag_name::Hgroup, wordring::html::tag_name::Hr, wordring::html::tag_name::Html, wordring::html::tag_name::I, wordring::html::tag_name::Ident, wordring::html::tag_name::Iframe, wordring::html::tag_name::Image, wordring::html::tag_name::Imaginary, wordring::html::tag_name::Imaginaryi, wordring::html::tag_name::Img, wordring::html::tag_name::Implies, wordring::html::tag_name::In, wordring::html::tag_name::Infinity, wordring::html::tag_name::Input, wordring::html::tag_name::Ins, wordring::html::tag_name::Int, wordring::html::tag_name::Integers, wordring::html::tag_name::Intersect, wordring::html::tag_name::Interval, wordring::html::tag_name::Inverse, wordring::html::tag_name::Kbd, wordring::html::tag_name::Keygen, wordring::html::tag_name::Label, wordring::html::tag_name::Lambda, wordring::html::tag_name::Laplacian, wordring::html::tag_name::Lcm, wordring::html::tag_name::Legend, wordring::html::tag_name::Leq, wordring::html::tag_name::Li, wordring::html::tag_name::Limit, wordring::html::tag_name::Line, wordring::html::tag_name::LinearGradient, wordring::html::tag_name::Lineargradient, wordring::html::tag_name::Link, wordring::html::tag_name::List, wordring::html::tag_name::Listing, wordring::html::tag_name::Ln, wordring::html::tag_name::Log, wordring::html::tag_name::Logbase, wordring::html::tag_name::Lowlimit, wordring::html::tag_name::Lt, wordring::html::tag_name::Maction, wordring::html::tag_name::Main, wordring::html::tag_name::Maligngroup, wordring::html::tag_name::Malignmark, wordring::html::tag_name::Map, wordring::html::tag_name::Mark, wordring::html::tag_name::Marker, wordring::html::tag_name::Marquee, wordring::html::tag_name::Mask, wordring::html::tag_name::Math, wordring::html::tag_name::Matrix, wordring::html::tag_name::Matrixrow, wordring::html::tag_name::Max, wordring::html::tag_name::Mean, wordring::html::tag_name::Median, wordring::html::tag_name::Menclose, wordring::html::tag_name::Menu, wordring::html::tag_name::Merror, wordring::html::tag_name::Meta, wordring::html::tag_name::Metadata, wordring::html::tag_name::Meter, wordring::html::tag_name::Mfenced, wordring::html::tag_name::Mfrac, wordring::html::tag_name::Mglyph, wordring::html::tag_name::Mi, wordring::html::tag_name::Min, wordring::html::tag_name::Minus, wordring::html::tag_name::Mlabeledtr, wordring::html::tag_name::Mlongdiv, wordring::html::tag_name::Mmultiscripts, wordring::html::tag_name::Mn, wordring::html::tag_name::Mo, wordring::html::tag_name::Mode, wordring::html::tag_name::Moment, wordring::html::tag_name::Momentabout, wordring::html::tag_name::Mover, wordring::html::tag_name::Mpadded, wordring::html::tag_name::Mpath, wordring::html::tag_name::Mphantom, wordring::html::tag_name::Mprescripts, wordring::html::tag_name::Mroot, wordring::html::tag_name::Mrow, wordring::html::tag_name::Ms, wordring::html::tag_name::Mscarries, wordring::html::tag_name::Mscarry, wordring::html::tag_name::Msgroup, wordring::html::tag_name::Msline, wordring::html::tag_name::Mspace, wordring::html::tag_name::Msqrt, wordring::html::tag_name::Msrow, wordring::html::tag_name::Mstack, wordring::html::tag_name::Mstyle, wordring::html::tag_name::Msub, wordring::html::tag_name::Msubsup, wordring::html::tag_name::Msup, wordring::html::tag_name::Mtable, wordring::html::tag_name::Mtd, wordring::html::tag_name::Mtext, wordring::html::tag_name::Mtr, wordring::html::tag_name::Munder, wordring::html::tag_name::Munderover, wordring::html::tag_name::Naturalnumbers, wordring::html::tag_name::Nav, wordring::html::tag_name::Neq, wordring::html::tag_name::Nobr, wordring::html::tag_name::Noembed, wordring::html::tag_name::Noframes, wordring::html::tag_name::None, wordring::html::tag_name::Noscript, wordring::html::tag_name::Not, wordring::html::tag_name::Notanumber, wordring::html::tag_name::Notin, wordring::html::tag_name::Notprsubset, wordring::html::tag_name::Notsubset, wordring::html::tag_name::Object, wordring::html::tag_name::Ol, wordring::html::tag_name::Optgroup, wordring::html::tag_name::Option, wordring::html::tag_name::Or, wordring::html::tag_name::Otherwise, wordring::html::tag_name::Outerproduct, wordring::html::tag_name::Output, wordring::html::tag_name::P, wordring::html::tag_name::Param, wordring::html::tag_name::Partialdiff, wordring::html::tag_name::Path, wordring::html::tag_name::Pattern, wordring::html::tag_name::Pi, wordring::html::tag_name::Picture, wordring::html::tag_name::Piece, wordring::html::tag_name::Piecewise, wordring::html::tag_name::Plaintext, wordring::html::tag_name::Plus, wordring::html::tag_name::Polygon, wordring::html::tag_name::Polyline, wordring::html::tag_name::Power, wordring::html::tag_name::Pre, wordring::html::tag_name::Primes, wordring::html::tag_name::Product, wordring::html::tag_name::Progress, wordring::html::tag_name::Prsubset, wordring::html::tag_name::Q, wordring::html::tag_name::Quotient, wordring::html::tag_name::RadialGradient, wordring::html::tag_name::Radialgradient, wordring::html::tag_name::Rationals, wordring::html::tag_name::Rb, wordring::html::tag_name::Real, wordring::html::tag_name::Reals, wordring::html::tag_name::Rect, wordring::html::tag_name::Reln, wordring::html::tag_name::Rem, wordring::html::tag_name::Root, wordring::html::tag_name::Rp, wordring::html::tag_name::Rt, wordring::html::tag_name::Rtc, wordring::html::tag_name::Ruby, wordring::html::tag_name::S, wordring::html::tag_name::Samp, wordring::html::tag_name::Scalarproduct, wordring::html::tag_name::Script, wordring::html::tag_name::Sdev, wordring::html::tag_name::Sec, wordring::html::tag_name::Sech, wordring::html::tag_name::Section, wordring::html::tag_name::Select, wordring::html::tag_name::Selector, wordring::html::tag_name::Semantics, wordring::html::tag_name::Sep, wordring::html::tag_name::Set, wordring::html::tag_name::Setdiff, wordring::html::tag_name::Share, wordring::html::tag_name::Sin, wordring::html::tag_name::Sinh, wordring::html::tag_name::Slot, wordring::html::tag_name::Small, wordring::html::tag_name::Source, wordring::html::tag_name::Span, wordring::html::tag_name::Stop, wordring::html::tag_name::Strike, wordring::html::tag_name::Strong, wordring::html::tag_name::Style, wordring::html::tag_name::Sub, wordring::html::tag_name::Subset, wordring::html::tag_name::Sum, wordring::html::tag_name::Summary, wordring::html::tag_name::Sup, wordring::html::tag_name::Svg, wordring::html::tag_name::Switch, wordring::html::tag_name::Symbol, wordring::html::tag_name::Table, wordring::html::tag_name::Tan, wordring::html::tag_name::Tanh, wordring::html::tag_name::Tbody, wordring::html::tag_name::Td, wordring::html::tag_name::Template, wordring::html::tag_name::Tendsto, wordring::html::tag_name::Text, wordring::html::tag_name::TextPath, wordring::html::tag_name::Textarea, wordring::html::tag_name::Textpath, wordring::html::tag_name::Tfoot, wordring::html::tag_name::Th, wordring::html::tag_name::Thead, wordring::html::tag_name::Time, wordring::html::tag_name::Times, wordring::html::tag_name::Title, wordring::html::tag_name::Tr, wordring::html::tag_name::Track, wordring::html::tag_name::Transpose, wordring::html::tag_name::True, wordring::html::tag_name::Tspan, wordring::html::tag_name::Tt, wordring::html::tag_name::U, wordring::html::tag_name::Ul, wordring::html::tag_name::Union, wordring::html::tag_name::Uplimit, wordring::html::tag_name::Use, wordring::html::tag_name::Var, wordring::html::tag_name::Variance, wordring::html::tag_name::Vector, wordring::html::tag_name::Vectorproduct, wordring::html::tag_name::Video, wordring::html::tag_name::View, wordring::html::tag_name::Wbr, wordring::html::tag_name::Xmp, wordring::html::tag_name::Xor };
static std::vector<wordring::html::attribute_name> const all_attr{ wordring::html::attribute_name::Abbr, wordring::html::attribute_name::Accent, wordring::html::attribute_name::Accentunder, wordring::html::attribute_name::Accept, wordring::html::attribute_name::Accept_charset, wordring::html::attribute_name::Accesskey, wordring::html::attribute_name::Accumulate, wordring::html::attribute_name::Action, wordring::html::attribute_name::Actiontype, wordring::html::attribute_name::Actuate, wordring::html::attribute_name::Additive, wordring::html::attribute_name::Align, wordring::html::attribute_name::Alignment_baseline, wordring::html::attribute_name::Alignmentscope, wordring::html::attribute_name::Allow, wordring::html::attribute_name::Allowfullscreen, wordring::html::attribute_name::Allowpaymentrequest, wordring::html::attribute_name::Alt, wordring::html::attribute_name::Altimg, wordring::html::attribute_name::Altimg_height, wordring::html::attribute_name::Altimg_valign, wordring::html::attribute_name::Altimg_width, wordring::html::attribute_name::Alttext, wordring::html::attribute_name::Amplitude, wordring::html::attribute_name::Annotation_xml, wordring::html::attribute_name::Arcrole, wordring::html::attribute_name::Aria_activedescendant, wordring::html::attribute_name::Aria_atomic, wordring::html::attribute_name::Aria_autocomplete, wordring::html::attribute_name::Aria_busy, wordring::html::attribute_name::Aria_checked, wordring::html::attribute_name::Aria_colcount, wordring::html::attribute_name::Aria_colindex, wordring::html::attribute_name::Aria_colspan, wordring::html::attribute_name::Aria_controls, wordring::html::attribute_name::Aria_current, wordring::html::attribute_name::Aria_describedby, wordring::html::attribute_name::Aria_details, wordring::html::attribute_name::Aria_disabled, wordring::html::attribute_name::Aria_dropeffect, wordring::html::attribute_name::Aria_errormessage, wordring::html::attribute_name::Aria_expanded, wordring::html::attribute_name::Aria_flowto, wordring::html::attribute_name::Aria_grabbed, wordring::html::attribute_name::Aria_haspopup, wordring::html::attribute_name::Aria_hidden, wordring::html::attribute_name::Aria_invalid, wordring::html::attribute_name::Aria_keyshortcuts, wordring::html::attribute_name::Aria_label, wordring::html::attribute_name::Aria_labelledby, wordring::html::attribute_name::Aria_level, wordring::html::attribute_name::Aria_live, wordring::html::attribute_name::Aria_modal, wordring::html::attribute_name::Aria_multiline, wordring::html::attribute_name::Aria_multiselectable, wordring::html::attribute_name::Aria_orientation, wordring::html::attribute_name::Aria_owns, wordring::html::attribute_name::Aria_placeholder, wordring::html::attribute_name::Aria_posinset, wordring::html::attribute_name::Aria_pressed, wordring::html::attribute_name::Aria_readonly, wordring::html::attribute_name::Aria_relevant, wordring::html::attribute_name::Aria_required, wordring::html::attribute_name::Aria_roledescription, wordring::html::attribute_name::Aria_rowcount, wordring::html::attribute_name::Aria_rowindex, wordring::html::attribute_name::Aria_rowspan, wordring::html::attribute_name::Aria_selected, wordring::html::attribute_name::Aria_setsize, wordring::html::attribute_name::Aria_sort, wordring::html::attribute_name::Aria_valuemax, wordring::html::attribute_name::Aria_valuemin, wordring::html::attribute_name::Aria_valuenow, wordring::html::attribute_name::Aria_valuetext, wordring::html::attribute_name::As, wordring::html::attribute_name::Async, wordring::html::attribute_name::AttributeName, wordring::html::attribute_name::AttributeType, wordring::html::attribute_name::Attributename, wordring::html::attribute_name::Attributetype, wordring::html::attribute_name::Autocapitalize, wordring::html::attribute_name::Autocomplete, wordring::html::attribute_name::Autofocus, wordring::html::attribute_name::Autoplay, wordring::html::attribute_name::Azimuth, wordring::html::attribute_name::Background, wordring::html::attribute_name::Base, wordring::html::attribute_name::BaseFrequency, wordring::html::attribute_name::BaseProfile, wordring::html::attribute_name::Basefrequency, wordring::html::attribute_name::Baseline, wordring::html::attribute_name::Baseline_shift, wordring::html::attribute_name::Baseprofile, wordring::html::attribute_name::Begin, wordring::html::attribute_name::Bevelled, wordring::html::attribute_name::Bias, wordring::html::attribute_name::By, wordring::html::attribute_name::CalcMode, wordring::html::attribute_name::Calcmode, wordring::html::attribute_name::Cd, wordring::html::attribute_name::Cdgroup, wordring::html::attribute_name::Charalign, wordring::html::attribute_name::Charset, wordring::html::attribute_name::Charspacing, wordring::html::attribute_name::Checked, wordring::html::attribute_name::Cite, wordring::html::attribute_name::Class, wordring::html::attribute_name::Clip, wordring::html::attribute_name::Clip_path, wordring::html::attribute_name::Clip_rule, wordring::html::attribute_name::ClipPathUnits, wordring::html::attribute_name::Clippathunits, wordring::html::attribute_name::Close, wordring::html::attribute_name::Closure, wordring::html::attribute_name::Color, wordring::html::attribute_name::Color_interpolation, wordring::html::attribute_name::Color_interpolation_filters, wordring::html::attribute_name::Cols, wordring::html::attribute_name::Colspan, wordring::html::attribute_name::Columnalign, wordring::html::attribute_name::Columnalignment, wordring::html::attribute_name::Columnlines, wordring::html::attribute_name::Columnspacing, wordring::html::attribute_name::Columnspan, wordring::html::attribute_name::Columnwidth, wordring::html::attribute_name::Content, wordring::html::attribute_name::Contenteditable, wordring::html::attribute_name::Controls, wordring::html::attribute_name::Coords, wordring::html::attribute_name::Crossorigin, wordring::html::attribute_name::Crossout, wordring::html::attribute_name::Cursor, wordring::html::attribute_name::Cx, wordring::html::attribute_name::Cy, wordring::html::attribute_name::Data, wordring::html::attribute_name::Datetime, wordring::html::attribute_name::Decimalpoint, wordring::html::attribute_name::Decoding, wordring::html::attribute_name::Default, wordring::html::attribute_name::Defer, wordring::html::attribute_name::DefinitionURL, wordring::html::attribute_name::Definitionurl, wordring::html::attribute_name::Denomalign, wordring::html::attribute_name::Depth, wordring::html::attribute_name::DiffuseConstant, wordring::html::attribute_name::Diffuseconstant, wordring::html::attribute_name::Dir, wordring::html::attribute_name::Direction, wordring::html::attribute_name::Dirname, wordring::html::attribute_name::Disabled, wordring::html::attribute_name::Display, wordring::html::attribute_name::Displaystyle, wordring::html::attribute_name::Divisor, wordring::html::attribute_name::Dominant_baseline, wordring::html::attribute_name::Download, wordring::html::attribute_name::Draggable, wordring::html::attribute_name::Dur, wordring::html::attribute_name::Dx, wordring::html::attribute_name::Dy, wordring::html::attribute_name::Edge, wordring::html::attribute_name::EdgeMode, wordring::html::attribute_name::Edgemode, wordring::html::attribute_name::Elevation, wordring::html::attribute_name::Encoding, wordring::html::attribute_name::Enctype, wordring::html::attribute_name::End, wordring::html::attribute_name::Enterkeyhint, wordring::html::attribute_name::Equalcolumns, wordring::html::attribute_name::Equalrows, wordring::html::attribute_name::Exponent, wordring::html::attribute_name::Fence, wordring::html::attribute_name::Fill, wordring::html::attribute_name::Fill_opacity, wordring::html::attribute_name::Fill_rule, wordring::html::attribute_name::Filter, wordring::html::attribute_name::FilterUnits, wordring::html::attribute_name::Filterunits, wordring::html::attribute_name::Flood_color, wordring::html::attribute_name::Flood_opacity, wordring::html::attribute_name::Font_family, wordring::html::attribute_name::Font_size, wordring::html::attribute_name::Font_size_adjust, wordring::html::attribute_name::Font_stretch, wordring::html::attribute_name::Font_style, wordring::html::attribute_name::Font_variant, wordring::html::attribute_name::Font_weight, wordring::html::attribute_name::Fontfamily, wordring::html::attribute_name::Fontsize, wordring::html::attribute_name::Fontstyle, wordring::html::attribute_name::Fontweight, wordring::html::attribute_name::For, wordring::html::attribute_name::Form, wordring::html::attribute_name::Formaction, wordring::html::attribute_name::Formenctype, wordring::html::attribute_name::Formmethod, wordring::html::attribute_name::Formnovalidate, wordring::html::attribute_name::Formtarget, wordring::html::attribute_name::Fr, wordring::html::attribute_name::Frame, wordring::html::attribute_name::Framespacing, wordring::html::attribute_name::From, wordring::html::attribute_name::Fx, wordring::html::attribute_name::Fy, wordring::html::attribute_name::Glyph_orientation_horizontal, wordring::html::attribute_name::Glyph_orientation_vertical, wordring::html::attribute_name::GlyphRef, wordring::html::attribute_name::Glyphref, wordring::html::attribute_name::GradientTransform, wordring::html::attribute_name::GradientUnits, wordring::html::attribute_name::Gradienttransform, wordring::html::attribute_name::Gradientunits, wordring::html::attribute_name::Groupalign, wordring::html::attribute_name::Headers, wordring::html::attribute_name::Height, wordring::html::attribute_name::Hidden, wordring::html::attribute_name::High, wordring::html::attribute_name::Href, wordring::html::attribute_name::Hreflang, wordring::html::attribute_name::Http_equiv, wordring::html::attribute_name::Id, wordring::html::attribute_name::Image_rendering, wordring::html::attribute_name::Imagesizes, wordring::html::attribute_name::Imagesrcset, wordring::html::attribute_name::In, wordring::html::attribute_name::In2, wordring::html::attribute_name::Indentalign, wordring::html::attribute_name::Indentalignfirst, wordring::html::attribute_name::Indentalignlast, wordring::html::attribute_name::Indentshift, wordring::html::attribute_name::Indentshiftfirst, wordring::html::attribute_name::Indentshiftlast, wordring::html::attribute_name::Indenttarget, wordring::html::attribute_name::Index, wordring::html::attribute_name::Infixlinebreakstyle, wordring::html::attribute_name::Inputmode, wordring::html::attribute_name::Integer, wordring::html::attribute_name::Integrity, wordring::html::attribute_name::Intercept, wordring::html::attribute_name::Is, wordring::html::attribute_name::Ismap, wordring::html::attribute_name::Itemid, wordring::html::attribute_name::Itemprop, wordring::html::attribute_name::Itemref, wordring::html::attribute_name::Itemscope, wordring::html::attribute_name::Itemtype, wordring::html::attribute_name::K1, wordring::html::attribute_name::K2, wordring::html::attribute_name::K3, wordring::html::attribute_name::K4, wordring::html::attribute_name::KernelMatrix, wordring::html::attribute_name::KernelUnitLength, wordring::html::attribute_name::Kernelmatrix, wordring::html::attribute_name::Kernelunitlength, wordring::html::attribute_name::KeyPoints, wordring::html::attribute_name::KeySplines, wordring::html::attribute_name::KeyTimes, wordring::html::attribute_name::Keypoints, wordring::html::attribute_name::Keysplines, wordring::html::attribute_name::Keytimes, wordring::html::attribute_name::Kind, wordring::html::attribute_name::Label, wordring::html::attribute_name::Lang, wordring::html::attribute_name::Largeop, wordring::html::attribute_name::Leftoverhang, wordring::html::attribute_name::Length, wordring::html::attribute_name::LengthAdjust, wordring::html::attribute_name::Lengthadjust, wordring::html::attribute_name::Letter_spacing, wordring::html::attribute_name::Lighting_color, wordring::html::attribute_name::LimitingConeAngle, wordring::html::attribute_name::Limitingconeangle, wordring::html::attribute_name::Linebreak, wordring::html::attribute_name::Linebreakmultchar, wordring::html::attribute_name::Linebreakstyle, wordring::html::attribute_name::Lineleading, wordring::html::attribute_name::Linethickness, wordring::html::attribute_name::List, wordring::html::attribute_name::Loading, wordring::html::attribute_name::Location, wordring::html::attribute_name::Longdivstyle, wordring::html::attribute_name::Loop, wordring::html::attribute_name::Low, wordring::html::attribute_name::Lquote, wordring::html::attribute_name::Lspace, wordring::html::attribute_name::Ltr, wordring::html::attribute_name::Macros, wordring::html::attribute_name::Manifest, wordring::html::attribute_name::Marker_end, wordring::html::attribute_name::Marker_mid, wordring::html::attribute_name::Marker_start, wordring::html::attribute_name::MarkerHeight, wordring::html::attribute_name::MarkerUnits, wordring::html::attribute_name::MarkerWidth, wordring::html::attribute_name::Markerheight, wordring::html::attribute_name::Markerunits, wordring::html::attribute_name::Markerwidth, wordring::html::attribute_name::Mask, wordring::html::attribute_name::Mask_type, wordring::html::attribute_name::MaskContentUnits, wordring::html::attribute_name::MaskUnits, wordring::html::attribute_name::Maskcontentunits, wordring::html::attribute_name::Maskunits, wordring::html::attribute_name::Math, wordring::html::attribute_name::Math_element, wordring::html::attribute_name::Mathbackground, wordring::html::attribute_name::Mathcolor, wordring::html::attribute_name::Mathsize, wordring::html::attribute_name::Mathvariant, wordring::html::attribute_name::Max, wordring::html::attribute_name::Maxlength, wordring::html::attribute_name::Maxsize, wordring::html::attribute_name::Maxwidth, wordring::html::attribute_name::Media, wordring::html::attribute_name::Mediummathspace, wordring::html::attribute_name::Menclose, wordring::html::attribute_name::Method, wordring::html::attribute_name::Min, wordring::html::attribute_name::Minlabelspacing, wordring::html::attribute_name::Minlength, wordring::html::attribute_name::Minsize, wordring::html::attribute_name::Mode, wordring::html::attribute_name::Movablelimits, wordring::html::attribute_name::Msgroup, wordring::html::attribute_name::Mslinethickness, wordring::html::attribute_name::Multiple, wordring::html::attribute_name::Muted, wordring::html::attribute_name::Name, wordring::html::attribute_name::Nargs, wordring::html::attribute_name::Newline, wordring::html::attribute_name::Nomodule, wordring::html::attribute_name::Nonce, wordring::html::attribute_name::Notation, wordring::html::attribute_name::Novalidate, wordring::html::attribute_name::NumOctaves, wordring::html::attribute_name::Numalign, wordring::html::attribute_name::Number, wordring::html::attribute_name::Numoctaves, wordring::html::attribute_name::Occurrence, wordring::html::attribute_name::Offset, wordring::html::attribute_name::Onabort, wordring::html::attribute_name::Onafterprint, wordring::html::attribute_name::Onauxclick, wordring::html::attribute_name::Onbeforeprint, wordring::html::attribute_name::Onbeforeunload, wordring::html::attribute_name::Onbegin, wordring::html::attribute_name::Onblur, wordring::html::attribute_name::Oncancel, wordring::html::attribute_name::Oncanplay, wordring::html::attribute_name::Oncanplaythrough, wordring::html::attribute_name::Onchange, wordring::html::attribute_name::Onclick, wordring::html::attribute_name::Onclose, wordring::html::attribute_name::Oncontextmenu, wordring::html::attribute_name::Oncopy, wordring::html::attribute_name::Oncuechange, wordring::html::attribute_name::Oncut, wordring::html::attribute_name::Ondblclick, wordring::html::attribute_name::Ondrag, wordring::html::attribute_name::Ondragend, wordring::html::attribute_name::Ondragenter, wordring::html::attribute_name::Ondragexit, wordring::html::attribute_name::Ondragleave, wordring::html::attribute_name::Ondragover, wordring::html::attribute_name::Ondragstart, wordring::html::attribute_name::Ondrop, wordring::html::attribute_name::Ondurationchange, wordring::html::attribute_name::Onemptied, wordring::html::attribute_name::Onend, wordring::html::attribute_name::Onended, wordring::html::attribute_name::Onerror, wordring::html::attribute_name::Onfocus, wordring::html::attribute_name::Onformdata, wordring::html::attribute_name::Onhashchange, wordring::html::attribute_name::Oninput, wordring::html::attribute_name::Oninvalid, wordring::html::attribute_name::Onkeydown, wordring::html::attribute_name::Onkeypress, wordring::html::attribute_name::Onkeyup, wordring::html::attribute_name::Onlanguagechange, wordring::html::attribute_name::Onload, wordring::html::attribute_name::Onloadeddata, wordring::html::attribute_name::Onloadedmetadata, wordring::html::attribute_name::Onloadstart, wordring::html::attribute_name::Onmessage, wordring::html::attribute_name::Onmessageerror, wordring::html::attribute_name::Onmousedown, wordring::html::attribute_name::Onmouseenter, wordring::html::attribute_name::Onmouseleave, wordring::html::attribute_name::Onmousemove, wordring::html::attribute_name::Onmouseout, wordring::html::attribute_name::Onmouseover, wordring::html::attribute_name::Onmouseup, wordring::html::attribute_name::Onoffline, wordring::html::attribute_name::Ononline, wordring::html::attribute_name::Onpagehide, wordring::html::attribute_name::Onpageshow, wordring::html::attribute_name::Onpaste, wordring::html::attribute_name::Onpause, wordring::html::attribute_name::Onplay, wordring::html::attribute_name::Onplaying, wordring::html::attribute_name::Onpopstate, wordring::html::attribute_name::Onprogress, wordring::html::attribute_name::Onratechange, wordring::html::attribute_name::Onrejectionhandled, wordring::html::attribute_name::Onrepeat, wordring::html::attribute_name::Onreset, wordring::html::attribute_name::Onresize, wordring::html::attribute_name::Onscroll, wordring::html::attribute_name::Onsecuritypolicyviolation, wordring::html::attribute_name::Onseeked, wordring::html::attribute_name::Onseeking, wordring::html::attribute_name::Onselect, wordring::html::attribute_name::Onshow, wordring::html::attribute_name::Onslotchange, wordring::html::attribute_name::Onstalled, wordring::html::attribute_name::Onstorage, wordring::html::attribute_name::Onsubmit, wordring::html::attribute_name::Onsuspend, wordring::html::attribute_name::Ontimeupdate, wordring::html::attribute_name::Ontoggle, wordring::html::attribute_name::Onunhandledrejection, wordring::html::attribute_name::Onunload, wordring::html::attribute_name::Onvolumechange, wordring::html::attribute_name::Onwaiting, wordring::html::attribute_name::Onwheel, wordring::html::attribute_name::Opacity, wordring::html::attribute_name::Open, wordring::html::attribute_name::Operator, wordring::html::attribute_name::Optimum, wordring::html::attribute_name::Order, wordring::html::attribute_name::Orient, wordring::html::attribute_name::Origin, wordring::html::attribute_name::Other, wordring::html::attribute_name::Overflow, wordring::html::attribute_name::Paint_order, wordring::html::attribute_name::Path, wordring::html::attribute_name::PathLength, wordring::html::attribute_name::Pathlength, wordring::html::attribute_name::Pattern, wordring::html::attribute_name::PatternContentUnits, wordring::html::attribute_name::PatternTransform, wordring::html::attribute_name::PatternUnits, wordring::html::attribute_name::Patterncontentunits, wordring::html::attribute_name::Patterntransform, wordring::html::attribute_name::Patternunits, wordring::html::attribute_name::Ping, wordring::html::attribute_name::Placeholder, wordring::html::attribute_name::Playbackorder, wordring::html::attribute_name::Playsinline, wordring::html::attribute_name::Pointer_events, wordring::html::attribute_name::Points, wordring::html::attribute_name::PointsAtX, wordring::html::attribute_name::PointsAtY, wordring::html::attribute_name::PointsAtZ, wordring::html::attribute_name::Pointsatx, wordring::html::attribute_name::Pointsaty, wordring::html::attribute_name::Pointsatz, wordring::html::attribute_name::Position, wordring::html::attribute_name::Poster, wordring::html::attribute_name::Preload, wordring::html::attribute_name::PreserveAlpha, wordring::html::attribute_name::PreserveAspectRatio, wordring::html::attribute_name::Preservealpha, wordring::html::attribute_name::Preserveaspectratio, wordring::html::attribute_name::PrimitiveUnits, wordring::html::attribute_name::Primitiveunits, wordring::html::attribute_name::R, wordring::html::attribute_name::Radius, wordring::html::attribute_name::Readonly, wordring::html::attribute_name::RefX, wordring::html::attribute_name::RefY, wordring::html::attribute_name::Referrerpolicy, wordring::html::attribute_name::Refx, wordring::html::attribute_name::Refy, wordring::html::attribute_name::Rel, wordring::html::attribute_name::RepeatCount, wordring::html::attribute_name::RepeatDur, wordring::html::attribute_name::Repeatcount, wordring::html::attribute_name::Repeatdur, wordring::html::attribute_name::Required, wordring::html::attribute_name::RequiredExtensions, wordring::html::attribute_name::RequiredFeatures, wordring::html::attribute_name::Requiredextensions, wordring::html::attribute_name::Requiredfeatures, wordring::html::attribute_name::Restart, wordring::html::attribute_name::Result, wordring::html::attribute_name::Reversed, wordring::html::attribute_name::Rightoverhang, wordring::html::attribute_name::Role, wordring::html::attribute_name::Rotate, wordring::html::attribute_name::Rowalign, wordring::html::attribute_name::Rowlines, wordring::html::attribute_name::Rows, wordring::html::attribute_name::Rowspacing, wordring::html::attribute_name::Rowspan, wordring::html::attribute_name::Rquote, wordring::html::attribute_name::Rspace, wordring::html::attribute_name::Sandbox, wordring::html::attribute_name::Scale, wordring::html::attribute_name::SchemaLocation, wordring::html::attribute_name::Schemalocation, wordring::html::attribute_name::Scope, wordring::html::attribute_name::Scriptlevel, wordring::html::attribute_name::Scriptminsize, wordring::html::attribute_name::Scriptsize, wordring::html::attribute_name::Scriptsizemultiplier, wordring::html::attribute_name::Seed, wordring::html::attribute_name::Selected, wordring::html::attribute_name::Selection, wordring::html::attribute_name::Separator, wordring::html::attribute_name::Separators, wordring::html::attribute_name::Shape, wordring::html::attribute_name::Shape_rendering, wordring::html::attribute_name::Shift, wordring::html::attribute_name::Show, wordring::html::attribute_name::Side, wordring::html::attribute_name::Size, wordring::html::attribute_name::Sizes, wordring::html::attribute_name::Slope, wordring::html::attribute_name::Slot, wordring::html::attribute_name::Space, wordring::html::attribute_name::Spacing, wordring::html::attribute_name::Span, wordring::html::attribute_name::SpecularConstant, wordring::html::attribute_name::SpecularExponent, wordring::html::attribute_name::Specularconstant, wordring::html::attribute_name::Specularexponent, wordring::html::attribute_name::Spellcheck, wordring::html::attribute_name::SpreadMethod, wordring::html::attribute_name::Spreadmethod, wordring::html::attribute_name::Src, wordring::html::attribute_name::Srcdoc, wordring::html::attribute_name::Srclang, wordring::html::attribute_name::Srcset, wordring::html::attribute_name::Stackalign, wordring::html::attribute_name::Start, wordring::html::attribute_name::StartOffset, wordring::html::attribute_name::Startoffset, wordring::html::attribute_name::StdDeviation, wordring::html::attribute_name::Stddeviation, wordring::html::attribute_name::Step, wordring::html::attribute_name::StitchTiles, wordring::html::attribute_name::Stitchtiles, wordring::html::attribute_name::Stop_color, wordring::html::attribute_name::Stop_opacity, wordring::html::attribute_name::Stretchy, wordring::html::attribute_name::Stroke, wordring::html::attribute_name::Stroke_dasharray, wordring::html::attribute_name::Stroke_dashoffset, wordring::html::attribute_name::Stroke_linecap, wordring::html::attribute_name::Stroke_linejoin, wordring::html::attribute_name::Stroke_miterlimit, wordring::html::attribute_name::Stroke_opacity, wordring::html::attribute_name::Stroke_width, wordring::html::attribute_name::Style, wordring::html::attribute_name::Subscriptshift, wordring::html::attribute_name::Superscriptshift, wordring::html::attribute_name::SurfaceScale, wordring::html::attribute_name::Surfacescale, wordring::html::attribute_name::Symmetric, wordring::html::attribute_name::SystemLanguage, wordring::html::attribute_name::Systemlanguage, wordring::html::attribute_name::Tabindex, wordring::html::attribute_name::TableValues, wordring::html::attribute_name::Tablevalues, wordring::html::attribute_name::Target, wordring::html::attribute_name::TargetX, wordring::html::attribute_name::TargetY, wordring::html::attribute_name::Targetx, wordring::html::attribute_name::Targety, wordring::html::attribute_name::Text_anchor, wordring::html::attribute_name::Text_decoration, wordring::html::attribute_name::Text_rendering, wordring::html::attribute_name::TextLength, wordring::html::attribute_name::Textlength, wordring::html::attribute_name::Thickmathspace, wordring::html::attribute_name::Thinmathspace, wordring::html::attribute_name::Timelinebegin, wordring::html::attribute_name::Title, wordring::html::attribute_name::To, wordring::html::attribute_name::Transform, wordring::html::attribute_name::Transform_origin, wordring::html::attribute_name::Translate, wordring::html::attribute_name::Type, wordring::html::attribute_name::Unicode_bidi, wordring::html::attribute_name::Usemap, wordring::html::attribute_name::Valign, wordring::html::attribute_name::Value, wordring::html::attribute_name::Values, wordring::html::attribute_name::Vector_effect, wordring::html::attribute_name::Verythickmathspace, wordring::html::attribute_name::Verythinmathspace, wordring::html::attribute_name::Veryverythickmathspace, wordring::html::attribute_name::Veryverythinmathspace, wordring::html::attribute_name::ViewBox, wordring::html::attribute_name::ViewTarget, wordring::html::attribute_name::Viewbox, wordring::html::attribute_name::Viewtarget, wordring::html::attribute_name::Visibility, wordring::html::attribute_name::Voffset, wordring::html::attribute_name::Width, wordring::html::attribute_name::Word_spacing, wordring::html::attribute_name::Wrap, wordring::html::attribute_name::Writing_mode, wordring::html::attribute_name::X, wordring::html::attribute_name::X1, wordring::html::attribute_name::X2, wordring::html::attribute_name::XChannelSelector, wordring::html::attribute_name::Xchannelselector, wordring::html::attribute_name::Xlink, wordring::html::attribute_name::Xlink_actuate, wordring::html::attribute_name::Xlink_arcrole, wordring::html::attribute_name::Xlink_href, wordring::html::attribute_name::Xlink_role, wordring::html::attribute_name::Xlink_show, wordring::html::attribute_name::Xlink_title, wordring::html::attribute_name::Xlink_type, wordring::html::attribute_name::Xml, wordring::html::attribute_name::Xml_lang, wordring::html::attribute_name::Xml_space, wordring::html::attribute_name::Xmlns, wordring::html::attribute_name::Xmlns_xlink, wordring::html::attribute_name::Xref, wordring::html::attribute_name::Xsi_schemaLocation, wordring::html::attribute_name::Xsi_schemalocation, wordring::html::attribute_name::Y, wordring::html::attribute_name::Y1, wordring::html::attribute_name::Y2, wordring::html::attribute_name::YChannelSelector, wordring::html::attribute_name::Ychannelselector, wordring::html::attribute_name::Z, wordring::html::attribute_name::ZoomAndPan, wordring::html::attribute_name::Zoomandpan };
