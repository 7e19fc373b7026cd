package com.fasterxml.jackson.core;
public class JsonProcessingException extends java.io.IOException { public JsonProcessingException(String m) { super(m); } }
