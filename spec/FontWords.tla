----------------------------- MODULE FontWords -----------------------------
(* Words in the names of styles, and what they tell (thin 0,extralight 40,ultralight 40,demilight 55,semilight 55,light 50,book 75,regular 80,normal 80,medium 100,demibold 180,demi 180,semibold 180,extrabold 205,superbold 205,ultrabold 205,bold 200,ultrablack 215,superblack 215,extrablack 215,black 210,heavy 210; ultracondensed 50,extracondensed 63,semicondensed 87,condensed 75,normal 100,semiexpanded 113,extraexpanded 150,ultraexpanded 200,expanded 125,extended 125; italic 100,kursiv 100,oblique 110; shadow 1,caps 1,antiqua 1,romansc 1,embosed 1,dunhill 1), and names of foundries in notices *)
EXTENDS Integers, Sequences
WeightWords == <<<<<<116, 104, 105, 110>>, 0>>,
  <<<<101, 120, 116, 114, 97, 108, 105, 103, 104, 116>>, 40>>,
  <<<<117, 108, 116, 114, 97, 108, 105, 103, 104, 116>>, 40>>,
  <<<<100, 101, 109, 105, 108, 105, 103, 104, 116>>, 55>>,
  <<<<115, 101, 109, 105, 108, 105, 103, 104, 116>>, 55>>,
  <<<<108, 105, 103, 104, 116>>, 50>>,
  <<<<98, 111, 111, 107>>, 75>>,
  <<<<114, 101, 103, 117, 108, 97, 114>>, 80>>,
  <<<<110, 111, 114, 109, 97, 108>>, 80>>,
  <<<<109, 101, 100, 105, 117, 109>>, 100>>,
  <<<<100, 101, 109, 105, 98, 111, 108, 100>>, 180>>,
  <<<<100, 101, 109, 105>>, 180>>,
  <<<<115, 101, 109, 105, 98, 111, 108, 100>>, 180>>,
  <<<<101, 120, 116, 114, 97, 98, 111, 108, 100>>, 205>>,
  <<<<115, 117, 112, 101, 114, 98, 111, 108, 100>>, 205>>,
  <<<<117, 108, 116, 114, 97, 98, 111, 108, 100>>, 205>>,
  <<<<98, 111, 108, 100>>, 200>>,
  <<<<117, 108, 116, 114, 97, 98, 108, 97, 99, 107>>, 215>>,
  <<<<115, 117, 112, 101, 114, 98, 108, 97, 99, 107>>, 215>>,
  <<<<101, 120, 116, 114, 97, 98, 108, 97, 99, 107>>, 215>>,
  <<<<98, 108, 97, 99, 107>>, 210>>,
  <<<<104, 101, 97, 118, 121>>, 210>>>>
WidthWords == <<<<<<117, 108, 116, 114, 97, 99, 111, 110, 100, 101, 110, 115, 101, 100>>, 50>>,
  <<<<101, 120, 116, 114, 97, 99, 111, 110, 100, 101, 110, 115, 101, 100>>, 63>>,
  <<<<115, 101, 109, 105, 99, 111, 110, 100, 101, 110, 115, 101, 100>>, 87>>,
  <<<<99, 111, 110, 100, 101, 110, 115, 101, 100>>, 75>>,
  <<<<110, 111, 114, 109, 97, 108>>, 100>>,
  <<<<115, 101, 109, 105, 101, 120, 112, 97, 110, 100, 101, 100>>, 113>>,
  <<<<101, 120, 116, 114, 97, 101, 120, 112, 97, 110, 100, 101, 100>>, 150>>,
  <<<<117, 108, 116, 114, 97, 101, 120, 112, 97, 110, 100, 101, 100>>, 200>>,
  <<<<101, 120, 112, 97, 110, 100, 101, 100>>, 125>>,
  <<<<101, 120, 116, 101, 110, 100, 101, 100>>, 125>>>>
SlantWords == <<<<<<105, 116, 97, 108, 105, 99>>, 100>>,
  <<<<107, 117, 114, 115, 105, 118>>, 100>>,
  <<<<111, 98, 108, 105, 113, 117, 101>>, 110>>>>
DecorWords == <<<<<<115, 104, 97, 100, 111, 119>>, 1>>,
  <<<<99, 97, 112, 115>>, 1>>,
  <<<<97, 110, 116, 105, 113, 117, 97>>, 1>>,
  <<<<114, 111, 109, 97, 110, 115, 99>>, 1>>,
  <<<<101, 109, 98, 111, 115, 101, 100>>, 1>>,
  <<<<100, 117, 110, 104, 105, 108, 108>>, 1>>>>
Notices == <<<<<<65, 100, 111, 98, 101>>, <<97, 100, 111, 98, 101>>>>,
  <<<<66, 105, 103, 101, 108, 111, 119>>, <<98, 38, 104>>>>,
  <<<<66, 105, 116, 115, 116, 114, 101, 97, 109>>, <<98, 105, 116, 115, 116, 114, 101, 97, 109>>>>,
  <<<<71, 110, 97, 116>>, <<99, 117, 108, 109, 117, 115>>>>,
  <<<<73, 111, 114, 115, 104>>, <<99, 117, 108, 109, 117, 115>>>>,
  <<<<73, 66, 77>>, <<105, 98, 109>>>>,
  <<<<76, 105, 110, 111, 116, 121, 112, 101>>, <<108, 105, 110, 111, 116, 121, 112, 101>>>>,
  <<<<77, 105, 99, 114, 111, 115, 111, 102, 116>>, <<109, 105, 99, 114, 111, 115, 111, 102, 116>>>>,
  <<<<77, 111, 110, 111, 116, 121, 112, 101>>, <<109, 111, 110, 111, 116, 121, 112, 101>>>>,
  <<<<85, 82, 87>>, <<117, 114, 119>>>>>>
UnknownFoundry == <<117, 110, 107, 110, 111, 119, 110>>
=============================================================================
