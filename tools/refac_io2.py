C="utils/csv.go"; L="utils/libsvm.go"; N="confu/confu.go"
IDS=["C13","C14","C15","C24"]
CASES={
 "csv-infill": [(C,"	var data [][]float64 = make([][]float64, 0, 1)\n	var labels []int = make([]int, 0, 0)\n	read","	D := &DataBunch{Data: make([][]float64, 0, 1), Labels: make([]int, 0)}\n	read"),
   (C,"			labels = append(labels, l)\n","			D.Labels = append(D.Labels, l)\n"),(C,"		data = append(data, d)\n\n	}\n	if","		D.Data = append(D.Data, d)\n	}\n	if"),
   (C,"	return &DataBunch{Data: data, Labels: labels, Keys: headers}, nil","	D.Keys = headers\n	return D, nil")],
 "csv-rows": [(C,"	n := 0\n	for {\n		rec, err2","	data, labels, err := readRows(read, hasLabels)\n	if err != nil {\n		return nil, err\n	}\n	return &DataBunch{Data: data, Labels: labels, Keys: headers}, nil\n}\n\nfunc readRows(read *csv.Reader, hasLabels bool) ([][]float64, []int, error) {\n	var err2 error\n	var rec []string\n	data := make([][]float64, 0, 1)\n	labels := make([]int, 0)\n	n := 0\n	for {\n		rec, err2"),
   (C,"	//	buf := bufio.NewReader(r)\n	var err2 error\n	var rec []string\n",""),(C,"	var data [][]float64 = make([][]float64, 0, 1)\n	var labels []int = make([]int, 0, 0)\n	read","	read"),
   (C,"			return nil, errors.Join(","			return nil, nil, errors.Join("),(C,"	if !errors.Is(err2, io.EOF) {\n		return nil, err2\n	}\n\n	return &DataBunch{Data: data, Labels: labels, Keys: headers}, nil\n","	if !errors.Is(err2, io.EOF) {\n		return nil, nil, err2\n	}\n	return data, labels, nil\n")],
 "csv-mk": [(C,"	read := csv.NewReader(r)\n	read.Comma = sep\n	read.TrimLeadingSpace = true\n","	read := newReader(r, sep)\n"),(C,"func ParseCSVFromReader","func newReader(r io.Reader, sep rune) *csv.Reader {\n	c := csv.NewReader(r)\n	c.TrimLeadingSpace = true\n	c.Comma = sep\n	return c\n}\n\nfunc ParseCSVFromReader")],
 "csv-scoped": [(C,"	var err2 error\n	var rec []string\n",""),(C,"		rec, err2 = read.Read()\n		if err2 != nil {\n			break\n		}\n","		rec, err2 := read.Read()\n		if err2 == io.EOF {\n			break\n		} else if err2 != nil {\n			return nil, err2\n		}\n"),(C,"	if !errors.Is(err2, io.EOF) {\n		return nil, err2\n	}\n\n","")],
 "csv-ini": [(C,"		ini := 0\n		if hasLabels {\n			ini = 1\n		}\n		headers = recs[ini:]\n","		headers = recs\n		if hasLabels {\n			headers = headers[1:]\n		}\n")],
 "csv-noprealloc": [(C,"make([][]float64, 0, 1)\n	var labels []int","make([][]float64, 0)\n	var labels []int"),(C,"	n := 0\n	for {","	for {"),(C,"hasLabels, n)","hasLabels, len(headers))"),(C,"		n = len(d)\n","")],
 "csv-file-open-first": [(C,"	sep := ','\n	if len(separator) != 0 {\n		sep = separator[0]\n	}\n	f, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n","	f, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n	sep := ','\n	if len(separator) > 0 {\n		sep = separator[0]\n	}\n")],
 "csv-file-tmp": [(C,"	return ParseCSVFromReader(f, hasHeader, hasLabels, sep)","	D, err := ParseCSVFromReader(f, hasHeader, hasLabels, sep)\n	if err != nil {\n		return nil, err\n	}\n	return D, nil")],
 "csv-file-wrap": [(C,"	if err != nil {\n		return nil, err\n	}\n	defer f.Close()","	if err != nil {\n		return nil, fmt.Errorf(\"opening %s: %w\", filename, err)\n	}\n	defer f.Close()")],
 "rec-makefill": [(C,"	data := make([]float64, 0, fields)\n","	if haslab {\n		start = 1\n	}\n	data := make([]float64, len(records)-start)\n"),(C,"		start++\n	}\n	for _, v := range records[start:] {","	}\n	for i, v := range records[start:] {"),(C,"		data = append(data, f)\n\n","		data[i] = f\n")],
 "rec-named": [(C,"(int, []float64, error) {\n	label := -1\n	var err error\n","(label int, data []float64, err error) {\n	label = -1\n"),(C,"	data := make([]float64, 0, fields)\n","	data = make([]float64, 0, fields)\n")],
 "svm-forcont": [(L,"	cont := 0\n	for {\n","	for cont := 0; ; cont++ {\n"),(L,"			cont++\n			continue","			continue"),(L,"		labels = append(labels, l)\n\n		cont++\n","		labels = append(labels, l)\n")],
 "svm-else": [(L,"			cont++\n			continue\n		}\n		t := make([]float64, 0, len(headers))\n		l := 0\n		l, _, t, err = parseLibSVMLine(line, false, nil, nil)\n		if err != nil {\n			return nil, svmliberror(err, cont+1, line)\n\n		}\n		if len(data) > 0 && len(t) != len(data[0]) {\n			err = fmt.Errorf(\"%d features, when the previous lines have %d\", len(t), len(data[0]))\n			return nil, svmliberror(err, cont+1, line)\n		}\n		data = append(data, t)\n		labels = append(labels, l)\n\n		cont++\n","		} else {\n			l, _, t, err := parseLibSVMLine(line, false, nil, nil)\n			if err == nil && len(data) > 0 && len(t) != len(data[0]) {\n				err = fmt.Errorf(\"%d features, when the previous lines have %d\", len(t), len(data[0]))\n			}\n			if err != nil {\n				return nil, svmliberror(err, cont+1, line)\n			}\n			data = append(data, t)\n			labels = append(labels, l)\n		}\n		cont++\n")],
 "svm-infill": [(L,"	var data [][]float64 = make([][]float64, 0, 1)\n	var labels []int\n","	ret := &DataBunch{Data: make([][]float64, 0, 1)}\n"),(L,"		if len(data) > 0 && len(t) != len(data[0]) {\n			err = fmt.Errorf(\"%d features, when the previous lines have %d\", len(t), len(data[0]))","		if len(ret.Data) > 0 && len(t) != len(ret.Data[0]) {\n			err = fmt.Errorf(\"%d features, when the previous lines have %d\", len(t), len(ret.Data[0]))"),
   (L,"		data = append(data, t)\n		labels = append(labels, l)\n","		ret.Data = append(ret.Data, t)\n		ret.Labels = append(ret.Labels, l)\n"),(L,"	return &DataBunch{Data: data, Labels: labels, Keys: headers}, nil","	ret.Keys = headers\n	return ret, nil")],
 "svm-width": [(L,"	cont := 0\n	for {","	cont := 0\n	width := -1\n	for {"),(L,"		if len(data) > 0 && len(t) != len(data[0]) {\n			err = fmt.Errorf(\"%d features, when the previous lines have %d\", len(t), len(data[0]))","		if width < 0 {\n			width = len(t)\n		}\n		if len(t) != width {\n			err = fmt.Errorf(\"%d features, when the previous lines have %d\", len(t), width)")],
 "svm-eofhelper": [(L,"		if err2 != nil && (err2 != io.EOF || line == \"\") {\n","		if done(line, err2) {\n"),(L,"func ParseLibSVMFromReader","func done(line string, err error) bool {\n	if err == nil {\n		return false\n	}\n	return err != io.EOF || line == \"\"\n}\n\nfunc ParseLibSVMFromReader")],
 "svm-line-switch": [(L,"		if header {\n			rets = append(rets, feat)\n		} else {\n			val, err","		switch header {\n		case true:\n			rets = append(rets, feat)\n		default:\n			val, err")],
 "svm-line-two": [(L,"	for _, v := range fields[1:] {\n		feats","	terms := fields[1:]\n	for _, v := range terms {\n		feats")],
 "names-else": [(N,"	var s string\n	var rerr error\n	ret := make(map[int]string)\n","	ret := make(map[int]string)\n"),(N,"		s := strings.Replace(s,","		s = strings.Replace(s,"),(N,"	for s, rerr = fin.ReadString('\\n'); rerr == nil || (rerr == io.EOF && s != \"\"); s, rerr = fin.ReadString('\\n') {\n","	for {\n		s, rerr := fin.ReadString('\\n')\n		if rerr != nil && !errors.Is(rerr, io.EOF) {\n			return nil, rerr\n		}\n		if rerr != nil && s == \"\" {\n			break\n		}\n"),(N,"	if !errors.Is(rerr, io.EOF) { //EOF is not an actual error\n		return nil, rerr\n	}\n	return ret, nil","	return ret, nil")],
 "names-splitn": [(N,"		if len(l) < 2 {\n			return nil, fmt.Errorf(\"Malformed line in label names file: %q\", s)\n		}\n		num, err := strconv.Atoi(l[0])\n		if err != nil {\n			return nil, err\n		}\n		ret[num] = l[1]\n","		if len(l) > 1 {\n			num, err := strconv.Atoi(l[0])\n			if err != nil {\n				return nil, err\n			}\n			ret[num] = l[1]\n		} else {\n			return nil, fmt.Errorf(\"Malformed line in label names file: %q\", s)\n		}\n")],
 "names-reader": [(N,"	fin := bufio.NewReader(ffin)\n	var s string","	return readNames(bufio.NewReader(ffin), sep)\n}\n\nfunc readNames(fin *bufio.Reader, sep string) (map[int]string, error) {\n	var s string")],
 "exp-hasKeys": [(C,"	if len(D.Keys) == l && l > 0 { //I asume","	hasKeys := l > 0 && len(D.Keys) == l\n	if hasKeys { //I asume")],
 "exp-hdr-helper": [(C,"		k := make([]string, 1, l+1)\n		k[0] = \"Labels\"\n		for _, v := range D.Keys {\n			s := fmt.Sprintf(\"%s\", v)\n			k = append(k, s)\n		}\n		ret = append(ret, strings.Join(k, sep))\n","		ret = append(ret, D.csvHeader(sep))\n"),(C,"func csverror","func (D *DataBunch) csvHeader(sep string) string {\n	return strings.Join(append([]string{\"Labels\"}, D.Keys...), sep)\n}\n\nfunc csverror")],
 "exp-lab-inline": [(C,"D.getithLabel(i))\n		for _","label(D, i))\n		for _"),(C,"func csverror","func label(D *DataBunch, i int) int {\n	return D.getithLabel(i)\n}\n\nfunc csverror")],
 "exp-nil-late": [(C,"	if D == nil {\n		return \"\"\n	}\n	sep := \",\"\n	if len(separator) > 0 {\n		sep = separator[0]\n	}\n	ret","	sep := \",\"\n	if len(separator) > 0 {\n		sep = separator[0]\n	}\n	if D == nil {\n		return \"\"\n	}\n	ret")],
 "exp-concat": [(C,"		dline := make([]string, 1, l+1)\n		dline[0] = fmt.Sprintf(\"%d\", D.getithLabel(i))\n		for _, w := range v {\n			s := fmt.Sprintf(\"%v\", w)\n			dline = append(dline, s)\n\n		}\n		ret = append(ret, strings.Join(dline, sep))","		dline := fmt.Sprintf(\"%d\", D.getithLabel(i))\n		for _, w := range v {\n			dline += sep + fmt.Sprintf(\"%v\", w)\n		}\n		ret = append(ret, dline)")],
}
