// The names of the word classes, in the order of models/selmaho.tsv.
use sneturfahi::lex::Selmaho;

pub const TABLE: &[Selmaho] = &[
	Selmaho::A,
	Selmaho::Bai,
	Selmaho::Bahe,
	Selmaho::Be,
	Selmaho::Bei,
	Selmaho::Beho,
	Selmaho::Bihe,
	Selmaho::Bihi,
	Selmaho::Bo,
	Selmaho::Boi,
	Selmaho::Bu,
	Selmaho::By,
	Selmaho::Cai,
	Selmaho::Caha,
	Selmaho::Cei,
	Selmaho::Cehe,
	Selmaho::Co,
	Selmaho::Coi,
	Selmaho::Cu,
	Selmaho::Cuhe,
	Selmaho::Daho,
	Selmaho::Doi,
	Selmaho::Dohu,
	Selmaho::Fa,
	Selmaho::Faha,
	Selmaho::Faho,
	Selmaho::Fehe,
	Selmaho::Fehu,
	Selmaho::Fiho,
	Selmaho::Foi,
	Selmaho::Fuha,
	Selmaho::Fuhe,
	Selmaho::Fuho,
	Selmaho::Ga,
	Selmaho::Gaho,
	Selmaho::Gehu,
	Selmaho::Gi,
	Selmaho::Giha,
	Selmaho::Goi,
	Selmaho::Goha,
	Selmaho::Guha,
	Selmaho::I,
	Selmaho::Ja,
	Selmaho::Jai,
	Selmaho::Joi,
	Selmaho::Johi,
	Selmaho::Ke,
	Selmaho::Kei,
	Selmaho::Kehe,
	Selmaho::Ki,
	Selmaho::Koha,
	Selmaho::Ku,
	Selmaho::Kuhe,
	Selmaho::Kuho,
	Selmaho::La,
	Selmaho::Lau,
	Selmaho::Lahe,
	Selmaho::Le,
	Selmaho::Lehu,
	Selmaho::Li,
	Selmaho::Lihu,
	Selmaho::Loho,
	Selmaho::Lohu,
	Selmaho::Lu,
	Selmaho::Luhu,
	Selmaho::Mai,
	Selmaho::Maho,
	Selmaho::Me,
	Selmaho::Mehu,
	Selmaho::Moi,
	Selmaho::Mohe,
	Selmaho::Mohi,
	Selmaho::Na,
	Selmaho::Nai,
	Selmaho::Nahe,
	Selmaho::Nahu,
	Selmaho::Nihe,
	Selmaho::Niho,
	Selmaho::Noi,
	Selmaho::Nu,
	Selmaho::Nuha,
	Selmaho::Nuhi,
	Selmaho::Nuhu,
	Selmaho::Pa,
	Selmaho::Pehe,
	Selmaho::Peho,
	Selmaho::Pu,
	Selmaho::Raho,
	Selmaho::Roi,
	Selmaho::Sa,
	Selmaho::Se,
	Selmaho::Sei,
	Selmaho::Sehu,
	Selmaho::Si,
	Selmaho::Soi,
	Selmaho::Su,
	Selmaho::Tahe,
	Selmaho::Tei,
	Selmaho::Tehu,
	Selmaho::To,
	Selmaho::Toi,
	Selmaho::Tuhe,
	Selmaho::Tuhu,
	Selmaho::Ui,
	Selmaho::Va,
	Selmaho::Vau,
	Selmaho::Vei,
	Selmaho::Veha,
	Selmaho::Veho,
	Selmaho::Viha,
	Selmaho::Vuho,
	Selmaho::Vuhu,
	Selmaho::Xi,
	Selmaho::Y,
	Selmaho::Zaho,
	Selmaho::Zei,
	Selmaho::Zeha,
	Selmaho::Zi,
	Selmaho::Zihe,
	Selmaho::Zo,
	Selmaho::Zoi,
	Selmaho::Zohu,
	Selmaho::Bahei,
	Selmaho::Beihe,
	Selmaho::Boihoi,
	Selmaho::Boihohu,
	Selmaho::Cahei,
	Selmaho::Ceheihoi,
	Selmaho::Cohai,
	Selmaho::Cohehohe,
	Selmaho::Cohuho,
	Selmaho::Cuhau,
	Selmaho::Dauho,
	Selmaho::Dehai,
	Selmaho::Dehau,
	Selmaho::Dohoi,
	Selmaho::Fauha,
	Selmaho::Fahoho,
	Selmaho::Fihoi,
	Selmaho::Foihe,
	Selmaho::Gahuhau,
	Selmaho::Gehuhi,
	Selmaho::Gihei,
	Selmaho::Gihoi,
	Selmaho::Gohoi,
	Selmaho::Ihau,
	Selmaho::Jaiha,
	Selmaho::Jaihi,
	Selmaho::Jauhu,
	Selmaho::Jahoi,
	Selmaho::Jihoi,
	Selmaho::Joihi,
	Selmaho::Johe,
	Selmaho::Juhau,
	Selmaho::Juhei,
	Selmaho::Juhuhi,
	Selmaho::Kauhai,
	Selmaho::Kauhu,
	Selmaho::Keihau,
	Selmaho::Keihi,
	Selmaho::Kehai,
	Selmaho::Kehei,
	Selmaho::Keheiha,
	Selmaho::Kehehau,
	Selmaho::Kehehu,
	Selmaho::Kehuhi,
	Selmaho::Kuhau,
	Selmaho::Kuhei,
	Selmaho::Kuhoihu,
	Selmaho::Kyhoi,
	Selmaho::Lehai,
	Selmaho::Lihau,
	Selmaho::Lihei,
	Selmaho::Lohai,
	Selmaho::Lohoi,
	Selmaho::Luhei,
	Selmaho::Mauhau,
	Selmaho::Mauhe,
	Selmaho::Mauho,
	Selmaho::Meihe,
	Selmaho::Meiho,
	Selmaho::Mehoi,
	Selmaho::Muhoi,
	Selmaho::Muhohu,
	Selmaho::Neihai,
	Selmaho::Noiha,
	Selmaho::Noihau,
	Selmaho::Noihahu,
	Selmaho::Noihi,
	Selmaho::Nohoi,
	Selmaho::Rauho,
	Selmaho::Rehaihe,
	Selmaho::Sauhu,
	Selmaho::Sahau,
	Selmaho::Sahoi,
	Selmaho::Seihau,
	Selmaho::Seiho,
	Selmaho::Sehehi,
	Selmaho::Sehoihoi,
	Selmaho::Sihihei,
	Selmaho::Sihihoi,
	Selmaho::Sihoi,
	Selmaho::Soihi,
	Selmaho::Sohehai,
	Selmaho::Sohoi,
	Selmaho::Taihu,
	Selmaho::Tauho,
	Selmaho::Tahoi,
	Selmaho::Tahuhi,
	Selmaho::Teihu,
	Selmaho::Tehoihoi,
	Selmaho::Toihe,
	Selmaho::Toiho,
	Selmaho::Vauhehoi,
	Selmaho::Vauhohoi,
	Selmaho::Vuhoi,
	Selmaho::Vyhy,
	Selmaho::Xauhe,
	Selmaho::Xauheho,
	Selmaho::Xauho,
	Selmaho::Xauhoi,
	Selmaho::Xauhoho,
	Selmaho::Xahoihahoiha,
	Selmaho::Xehau,
	Selmaho::Xoi,
	Selmaho::Xoha,
	Selmaho::Xohehohe,
	Selmaho::Xohi,
	Selmaho::Xuhau,
	Selmaho::Yhi,
	Selmaho::Zaihai,
	Selmaho::Zaihu,
	Selmaho::Zauhehu,
	Selmaho::Zeihei,
	Selmaho::Zeihoi,
	Selmaho::Ziheha,
	Selmaho::Zihehau,
	Selmaho::Zihoi,
	Selmaho::Zoihai,
	Selmaho::Zoihohe,
	Selmaho::Zohau,
	Selmaho::Zohehu,
	Selmaho::Zohiho,
	Selmaho::Zohoi,
	Selmaho::Gismu,
	Selmaho::Fuhivla,
	Selmaho::Lujvo,
	Selmaho::Cmevla,
	Selmaho::UnknownCmavo,
	Selmaho::AnyText,
	Selmaho::ZoiDelimiter,
];
