C="utils/csv.go"; L="utils/libsvm.go"; N="confu/confu.go"; X="xjson.go"; U="utils/json.go"; V="cv/cv.go"
IDS=["C13","C14","C15","C01"]
CASES={
 "best-closeall": [(V,"	defer f.Close()\n	boosted","	boosted"),(V,"	err = boo.JSONMultiClass(boosted, \"softmax\", bf)\n	if err != nil {\n		return err\n	}\n	err = bf.Flush()\n	if err != nil {\n		return err\n	}\n","	err = boo.JSONMultiClass(boosted, \"softmax\", bf)\n	if err != nil {\n		f.Close()\n		return err\n	}\n	if err = bf.Flush(); err != nil {\n		f.Close()\n		return err\n	}\n")],
 "best-iferr": [(V,"	err = boo.JSONMultiClass(boosted, \"softmax\", bf)\n	if err != nil {\n		return err\n	}\n	err = bf.Flush()\n	if err != nil {\n		return err\n	}\n","	if err := boo.JSONMultiClass(boosted, \"softmax\", bf); err != nil {\n		return err\n	}\n	if err := bf.Flush(); err != nil {\n		return err\n	}\n")],
 "best-train-first": [(V,"	name := fmt.Sprintf(\"xgbmodel%d.json\", int(bestacc))\n	f, err","	boosted := boo.NewMultiClass(data, bestop)\n	name := fmt.Sprintf(\"xgbmodel%d.json\", int(bestacc))\n	f, err"),(V,"	boosted := boo.NewMultiClass(data, bestop)\n	bf :=","	bf :=")],
 "best-save": [(V,"	bf := bufio.NewWriter(f)\n	err = boo.JSONMultiClass(boosted, \"softmax\", bf)\n	if err != nil {\n		return err\n	}\n	err = bf.Flush()\n	if err != nil {\n		return err\n	}\n","	if err := save(boosted, f); err != nil {\n		return err\n	}\n"),(V,"func writeBest","func save(m *boo.MultiClass, f *os.File) error {\n	w := bufio.NewWriter(f)\n	if err := boo.JSONMultiClass(m, \"softmax\", w); err != nil {\n		return err\n	}\n	return w.Flush()\n}\n\nfunc writeBest")],
 "best-named": [(V,"func writeBest(data *utils.DataBunch, bestacc float64, bestop *boo.Options) error {","func writeBest(data *utils.DataBunch, bestacc float64, bestop *boo.Options) (err error) {"),(V,"	defer f.Close()\n	boosted","	defer func() {\n		cerr := f.Close()\n		if err == nil {\n			err = cerr\n		}\n	}()\n	boosted"),(V,"	err = bf.Flush()\n	if err != nil {\n		return err\n	}\n	return f.Close()\n","	return bf.Flush()\n")],
 "best-wrap": [(V,"	f, err := os.Create(name)\n	if err != nil {\n		return err\n	}","	f, err := os.Create(name)\n	if err != nil {\n		return fmt.Errorf(\"model file: %w\", err)\n	}")],
 "csv-closure-close": [(C,"	defer f.Close()\n","	defer func() {\n		_ = f.Close()\n	}()\n")],
 "svm-closeval": [(L,"	defer f.Close()\n	return ParseLibSVMFromReader(f, hasaheader)","	D, err := ParseLibSVMFromReader(f, hasaheader)\n	f.Close()\n	return D, err")],
 "svm-openhelper": [(L,"	f, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n	return ParseLibSVMFromReader(f, hasaheader)","	f, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	defer closeFile(f)\n	return ParseLibSVMFromReader(f, hasaheader)"),(L,"func ParseLibSVMFromReader","func closeFile(f *os.File) {\n	if err := f.Close(); err != nil {\n		fmt.Println(err)\n	}\n}\n\nfunc ParseLibSVMFromReader")],
 "line-splitn": [(L,"		feats := strings.Split(v, \":\")\n		if len(feats) != 2 {\n			return","		feats := strings.Split(v, \":\")\n		if n := len(feats); n != 2 {\n			return")],
 "line-lt": [(L,"	if len(fields) == 0 {","	if len(fields) < 1 {")],
 "names-swap": [(N,"		if len(l) < 2 {","		if !(len(l) >= 2) {")],
 "csv-first": [(C,"		label, err = strconv.Atoi(records[0])\n","		first := records[0]\n		label, err = strconv.Atoi(first)\n")],
}
