package com.google.gson;

import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.ParameterizedType;
import java.lang.reflect.Type;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Stand-in for the library the reader parses its meta data with: objects into public fields, unknown members ignored. */
public final class Gson {
    private String s;
    private int i;

    public <T> T fromJson(String json, Class<T> c) {
        s = json;
        i = 0;
        Object v = value();
        ws();
        if (i != s.length()) {
            throw new RuntimeException("text after the value");
        }
        return c.cast(into(v, c));
    }

    private static long whole(Object v) {
        if (v instanceof String) {
            return Long.parseLong((String) v);
        }
        if (v instanceof Double && (Double) v != Math.rint((Double) v)) {
            throw new RuntimeException("not a whole number");
        }
        return ((Number) v).longValue();
    }

    private static Object into(Object v, Type t) {
        if (v == null) {
            return null;
        }
        if (t == int.class || t == Integer.class) {
            long n = whole(v);
            if (n != (int) n) {
                throw new RuntimeException("number too large");
            }
            return (int) n;
        }
        if (t == long.class || t == Long.class) {
            return whole(v);
        }
        if (t == String.class) {
            return v instanceof Long ? v.toString() : (String) v;
        }
        if (t instanceof Class && ((Class<?>) t).isArray()) {
            List<?> l = (List<?>) v;
            Class<?> e = ((Class<?>) t).getComponentType();
            Object a = Array.newInstance(e, l.size());
            for (int k = 0; k < l.size(); k++) {
                Array.set(a, k, into(l.get(k), e));
            }
            return a;
        }
        if (t instanceof ParameterizedType) {
            ParameterizedType p = (ParameterizedType) t;
            if (p.getRawType() == List.class) {
                List<Object> ret = new ArrayList<>();
                for (Object o : (List<?>) v) {
                    ret.add(into(o, p.getActualTypeArguments()[0]));
                }
                return ret;
            }
            Map<String, Object> ret = new LinkedHashMap<>();
            for (Map.Entry<?, ?> e : ((Map<?, ?>) v).entrySet()) {
                ret.put((String) e.getKey(), into(e.getValue(), p.getActualTypeArguments()[1]));
            }
            return ret;
        }
        try {
            Class<?> c = (Class<?>) t;
            java.lang.reflect.Constructor<?> n = c.getDeclaredConstructor();
            n.setAccessible(true);
            Object ret = n.newInstance();
            for (Field f : c.getDeclaredFields()) {
                Map<?, ?> m = (Map<?, ?>) v;
                if (m.containsKey(f.getName()) && !java.lang.reflect.Modifier.isStatic(f.getModifiers())) {
                    f.setAccessible(true);
                    Object x = into(m.get(f.getName()), f.getGenericType());
                    if (x != null || !f.getType().isPrimitive()) {
                        f.set(ret, x);
                    }
                }
            }
            return ret;
        } catch (ReflectiveOperationException e) {
            throw new RuntimeException(e);
        }
    }

    private void ws() {
        while (i < s.length() && " \t\r\n".indexOf(s.charAt(i)) >= 0) {
            i++;
        }
    }

    private char next() {
        if (i >= s.length()) {
            throw new RuntimeException("end of text");
        }
        return s.charAt(i++);
    }

    private char peek() {
        if (i >= s.length()) {
            throw new RuntimeException("end of text");
        }
        return s.charAt(i);
    }

    private void expect(String w) {
        for (char c : w.toCharArray()) {
            if (next() != c) {
                throw new RuntimeException("expected " + w);
            }
        }
    }

    private boolean more(char end) {
        ws();
        char c = next();
        if (c == ',') {
            return true;
        }
        if (c != end) {
            throw new RuntimeException("unexpected " + c);
        }
        return false;
    }

    private int depth;

    private Object value() {
        if (depth > 500) {
            throw new RuntimeException("nested too deep");
        }
        depth++;
        try {
            return value1();
        } finally {
            depth--;
        }
    }

    private Object value1() {
        ws();
        char c = next();
        switch (c) {
            case '{': {
                Map<String, Object> m = new LinkedHashMap<>();
                ws();
                if (peek() == '}') {
                    i++;
                    return m;
                }
                do {
                    ws();
                    expect("\"");
                    String k = string();
                    ws();
                    expect(":");
                    m.put(k, value());
                } while (more('}'));
                return m;
            }
            case '[': {
                List<Object> l = new ArrayList<>();
                ws();
                if (peek() == ']') {
                    i++;
                    return l;
                }
                do {
                    l.add(value());
                } while (more(']'));
                return l;
            }
            case '"':
                return string();
            case 't':
                expect("rue");
                return Boolean.TRUE;
            case 'f':
                expect("alse");
                return Boolean.FALSE;
            case 'n':
                expect("ull");
                return null;
            default: {
                int from = i - 1;
                while (i < s.length() && "+-.eE0123456789".indexOf(s.charAt(i)) >= 0) {
                    i++;
                }
                String n = s.substring(from, i);
                if (n.matches("-?[0-9]+")) {
                    return Long.valueOf(n);
                }
                return Double.valueOf(n);
            }
        }
    }

    private String string() {
        StringBuilder b = new StringBuilder();
        for (char c = next(); c != '"'; c = next()) {
            if (c != '\\') {
                b.append(c);
                continue;
            }
            c = next();
            switch (c) {
                case 'n': b.append('\n'); break;
                case 't': b.append('\t'); break;
                case 'r': b.append('\r'); break;
                case 'b': b.append('\b'); break;
                case 'f': b.append('\f'); break;
                case 'u':
                    b.append((char) Integer.parseInt(s.substring(i, i + 4), 16));
                    i += 4;
                    break;
                default: b.append(c);
            }
        }
        return b.toString();
    }
}
