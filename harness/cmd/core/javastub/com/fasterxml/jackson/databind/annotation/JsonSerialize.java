package com.fasterxml.jackson.databind.annotation;
import java.lang.annotation.*;
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.ANNOTATION_TYPE, ElementType.TYPE, ElementType.METHOD, ElementType.CONSTRUCTOR, ElementType.FIELD, ElementType.PARAMETER})
public @interface JsonSerialize {
    @SuppressWarnings("rawtypes") Class<? extends com.fasterxml.jackson.databind.JsonSerializer> using() default com.fasterxml.jackson.databind.JsonSerializer.None.class;
    @SuppressWarnings("rawtypes") Class<? extends com.fasterxml.jackson.databind.JsonSerializer> contentUsing() default com.fasterxml.jackson.databind.JsonSerializer.None.class;
    @SuppressWarnings("rawtypes") Class<? extends com.fasterxml.jackson.databind.JsonSerializer> keyUsing() default com.fasterxml.jackson.databind.JsonSerializer.None.class;
}
