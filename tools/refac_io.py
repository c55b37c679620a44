C="utils/csv.go"; L="utils/libsvm.go"; N="confu/confu.go"
IDS=["C13","C14","C15","C24"]
CASES={
 "rec-idx": [(C,"	for _, v := range records[start:] {\n		f, err := strconv.ParseFloat(v, 64)","	for i := start; i < len(records); i++ {\n		f, err := strconv.ParseFloat(records[i], 64)")],
 "rec-helper": [(C,"	if haslab {\n		label, err = strconv.Atoi(records[0])\n		if err != nil {\n			return -1, nil, err\n		}\n		start++\n	}","	if haslab {\n		label, err = labelOf(records)\n		if err != nil {\n			return -1, nil, err\n		}\n		start = 1\n	}"),(C,"func recordsToData","func labelOf(r []string) (int, error) {\n	return strconv.Atoi(r[0])\n}\n\nfunc recordsToData")],
 "rec-floats": [(C,"	for _, v := range records[start:] {\n		f, err := strconv.ParseFloat(v, 64)\n		if err != nil {\n			return -1, nil, err\n		}\n		data = append(data, f)\n\n	}\n\n	return label, data, nil","	data, err = parseAll(records[start:], data)\n	if err != nil {\n		return -1, nil, err\n	}\n	return label, data, nil"),(C,"func recordsToData","func parseAll(r []string, to []float64) ([]float64, error) {\n	for _, v := range r {\n		f, err := strconv.ParseFloat(v, 64)\n		if err != nil {\n			return nil, err\n		}\n		to = append(to, f)\n	}\n	return to, nil\n}\n\nfunc recordsToData")],
 "rec-slice": [(C,"		start++\n	}\n	for _, v := range records[start:] {","		records = records[1:]\n	}\n	_ = start\n	for _, v := range records {")],
 "csv-eof-in": [(C,"		if err2 != nil {\n			break\n		}\n		l, d,","		if errors.Is(err2, io.EOF) {\n			break\n		}\n		if err2 != nil {\n			return nil, err2\n		}\n		l, d,"),(C,"	if !errors.Is(err2, io.EOF) {\n		return nil, err2\n	}\n\n","")],
 "csv-eof-eq": [(C,"	if !errors.Is(err2, io.EOF) {","	if err2 != io.EOF {")],
 "csv-struct": [(C,"	return &DataBunch{Data: data, Labels: labels, Keys: headers}, nil","	D := new(DataBunch)\n	D.Keys = headers\n	D.Data = data\n	D.Labels = labels\n	return D, nil")],
 "csv-hdr-helper": [(C,"		recs, err := read.Read()\n		if err != nil {\n			return nil, err\n		}\n\n		ini := 0\n		if hasLabels {\n			ini = 1\n		}\n		headers = recs[ini:]\n","		var err error\n		headers, err = header(read, hasLabels)\n		if err != nil {\n			return nil, err\n		}\n"),(C,"func ParseCSVFromReader","func header(read *csv.Reader, labels bool) ([]string, error) {\n	recs, err := read.Read()\n	if err != nil {\n		return nil, err\n	}\n	if labels {\n		return recs[1:], nil\n	}\n	return recs, nil\n}\n\nfunc ParseCSVFromReader")],
 "csv-order": [(C,"		if hasLabels {\n			labels = append(labels, l)\n		}\n		n = len(d)\n		data = append(data, d)\n","		data = append(data, d)\n		n = len(d)\n		if hasLabels {\n			labels = append(labels, l)\n		}\n")],
 "csv-for": [(C,"	for {\n		rec, err2 = read.Read()\n		if err2 != nil {\n			break\n		}\n","	for rec, err2 = read.Read(); err2 == nil; rec, err2 = read.Read() {\n")],
 "svm-eof": [(L,"	if err2.Error() != \"EOF\" {","	if err2 != io.EOF {")],
 "svm-first": [(L,"	cont := 0\n	for {\n		//","	cont := 0\n	first := hasHeader\n	for {\n		//"),(L,"		if hasHeader && cont == 0 {","		if first {\n			first = false")],
 "svm-hdr-out": [(L,"		l := 0\n		l, _, t, err = parseLibSVMLine","		var l int\n		l, _, t, err = parseLibSVMLine"),(L,"		t := make([]float64, 0, len(headers))\n","		var t []float64\n")],
 "svm-check-helper": [(L,"		if len(data) > 0 && len(t) != len(data[0]) {","		if !fits(data, t) {"),(L,"func ParseLibSVMFromReader","func fits(data [][]float64, row []float64) bool {\n	return len(data) == 0 || len(data[0]) == len(row)\n}\n\nfunc ParseLibSVMFromReader")],
 "svm-parse-order": [(L,"		data = append(data, t)\n		labels = append(labels, l)","		labels = append(labels, l)\n		data = append(data, t)")],
 "svm-line-cut": [(L,"		feats := strings.Split(v, \":\")\n		if len(feats) != 2 {\n			return -1, nil, nil, fmt.Errorf(\"Malformed term: %s\", v)\n		}\n		feat := feats[1]\n","		feat, terr := termOf(v)\n		if terr != nil {\n			return -1, nil, nil, terr\n		}\n"),(L,"// This is not very good at all","func termOf(v string) (string, error) {\n	p := strings.Split(v, \":\")\n	if len(p) != 2 {\n		return \"\", fmt.Errorf(\"Malformed term: %s\", v)\n	}\n	return p[1], nil\n}\n\n// This is not very good at all")],
 "svm-line-hdr-early": [(L,"		if header {\n			rets = append(rets, feat)\n		} else {\n			val, err := strconv.ParseFloat(feat, 64)\n			if err != nil {\n				return class, nil, nil, err\n			}\n			retf = append(retf, val)\n		}\n","		if header {\n			rets = append(rets, feat)\n			continue\n		}\n		val, err := strconv.ParseFloat(feat, 64)\n		if err != nil {\n			return class, nil, nil, err\n		}\n		retf = append(retf, val)\n")],
 "svm-line-idx": [(L,"	for _, v := range fields[1:] {\n","	for i := 1; i < len(fields); i++ {\n		v := fields[i]\n")],
 "svm-line-trim": [(L,"	fields := strings.Fields(line)\n","	fields := strings.Fields(strings.TrimSpace(line))\n")],
 "names-forever": [(N,"	for s, rerr = fin.ReadString('\\n'); rerr == nil || (rerr == io.EOF && s != \"\"); s, rerr = fin.ReadString('\\n') {\n","	for {\n		s, rerr = fin.ReadString('\\n')\n		if rerr != nil && (rerr != io.EOF || s == \"\") {\n			break\n		}\n")],
 "names-trim": [(N,"strings.Replace(s, \"\\n\", \"\", -1)","strings.TrimSuffix(s, \"\\n\")")],
 "names-split-helper": [(N,"		var l []string\n		if sep == \" \" {\n			l = strings.Fields(s)\n		} else {\n			l = strings.Split(s, sep)\n		}\n","		l := splitName(s, sep)\n"),(N,"type Confusions struct","func splitName(s, sep string) []string {\n	if sep == \" \" {\n		return strings.Fields(s)\n	}\n	return strings.Split(s, sep)\n}\n\ntype Confusions struct")],
 "names-entry-helper": [(N,"		if len(l) < 2 {\n			return nil, fmt.Errorf(\"Malformed line in label names file: %q\", s)\n		}\n		num, err := strconv.Atoi(l[0])\n		if err != nil {\n			return nil, err\n		}\n		ret[num] = l[1]\n","		num, nm, err := entry(l)\n		if err != nil {\n			return nil, err\n		}\n		ret[num] = nm\n"),(N,"type Confusions struct","func entry(l []string) (int, string, error) {\n	if len(l) < 2 {\n		return 0, \"\", fmt.Errorf(\"Malformed line in label names file: %q\", l)\n	}\n	num, err := strconv.Atoi(l[0])\n	return num, l[1], err\n}\n\ntype Confusions struct")],
 "names-ifeof": [(N,"	if !errors.Is(rerr, io.EOF) { //EOF is not an actual error\n		return nil, rerr\n	}\n	return ret, nil","	if errors.Is(rerr, io.EOF) { //EOF is not an actual error\n		return ret, nil\n	}\n	return nil, rerr")],
 # exports
 "exp-keys": [(C,"		for _, v := range D.Keys {\n			s := fmt.Sprintf(\"%s\", v)\n			k = append(k, s)\n		}\n","		k = append(k, D.Keys...)\n")],
 "exp-row-helper": [(C,"		dline := make([]string, 1, l+1)\n		dline[0] = fmt.Sprintf(\"%d\", D.getithLabel(i))\n		for _, w := range v {\n			s := fmt.Sprintf(\"%v\", w)\n			dline = append(dline, s)\n\n		}\n		ret = append(ret, strings.Join(dline, sep))","		ret = append(ret, csvRow(D.getithLabel(i), v, sep))"),(C,"func csverror","func csvRow(label int, v []float64, sep string) string {\n	line := make([]string, 0, len(v)+1)\n	line = append(line, fmt.Sprint(label))\n	for _, w := range v {\n		line = append(line, fmt.Sprint(w))\n	}\n	return strings.Join(line, sep)\n}\n\nfunc csverror")],
 "exp-idx": [(C,"		for _, w := range v {\n			s := fmt.Sprintf(\"%v\", w)\n			dline = append(dline, s)\n\n		}","		for j := range v {\n			dline = append(dline, fmt.Sprintf(\"%v\", v[j]))\n		}")],
 "exp-svm-noblank": [(L,"		dline := make([]string, l+1)\n		dline[0] = fmt.Sprintf(\"%3d\", D.getithLabel(i))\n		for j, w","		dline := make([]string, 1, l+1)\n		dline[0] = fmt.Sprintf(\"%3d\", D.getithLabel(i))\n		for j, w")],
 "exp-fmt": [(L,'fmt.Sprintf("%d:%v", j+1, w)','strconv.Itoa(j+1) + ":" + strconv.FormatFloat(w, \'g\', -1, 64)')],
 "exp-make": [(C,"		dline := make([]string, 1, l+1)\n		dline[0] = fmt.Sprintf(\"%d\", D.getithLabel(i))\n		for _, w := range v {\n			s := fmt.Sprintf(\"%v\", w)\n			dline = append(dline, s)\n\n		}","		dline := make([]string, len(v)+1)\n		dline[0] = fmt.Sprintf(\"%d\", D.getithLabel(i))\n		for j, w := range v {\n			dline[j+1] = fmt.Sprintf(\"%v\", w)\n		}")],
 "exp-cols-helper": [(C,"	l := len(D.Keys)\n	if len(D.Data) > 0 {\n		l = len(D.Data[0]) //everything should be this lenght\n	}\n","	l := D.cols()\n"),(C,"func csverror","func (D *DataBunch) cols() int {\n	if len(D.Data) > 0 {\n		return len(D.Data[0])\n	}\n	return len(D.Keys)\n}\n\nfunc csverror")],
 "exp-label-flip": [(L,"	if len(D.Labels) == len(D.Data) {\n		return D.Labels[i]\n	} else {\n		return -1 //the bunch has no labels\n	}","	if len(D.Labels) != len(D.Data) {\n		return -1\n	}\n	return D.Labels[i]")],
}
